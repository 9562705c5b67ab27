From 6f64e87ff2470b5bdc3c78766d0a709704146888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 01/38] fix: only the issuer, the holder or a member through
 the holder of a revocation's proof may revoke

add_revocation never looked at who issued a revocation whose proof was the
revoked delegation or one of its ancestors, so anyone could revoke anyone, and
it did not compare the proof's own access or subject.
---
 keyhive_core/src/principal/group/state.rs | 32 ++++++++++++++---------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index bcd15cb..bc76803 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -212,19 +212,27 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         if let Some(proof) = &revocation.payload.proof {
-            if revocation.payload.revoke != *proof
-                && !revocation.payload.revoke.payload.is_descendant_of(proof)
-            {
-                // The revoked delegation is not a descendant of the proof.
-                // Check if the revoker has transitive access through the
-                // proof's delegate (a group/doc intermediary).
+            if proof.subject_id() != Identifier::from(self.id) {
+                return Err(AddError::InvalidSubject(Box::new(proof.subject_id())));
+            }
+
+            let revoke = &revocation.payload.revoke;
+            let in_lineage = *revoke == *proof || revoke.payload.is_descendant_of(proof);
+            let issued_or_holds_proof = revocation.issuer == proof.issuer
+                || revocation.issuer == proof.payload.delegate.verifying_key();
+
+            if !(in_lineage && issued_or_holds_proof) {
+                // The revoker neither issued nor holds a delegation that the
+                // revoked one rests on. Check if the revoker has transitive
+                // access through the proof's delegate (a group/doc intermediary).
                 let revoker_id = Identifier::from(revocation.issuer);
-                if !is_transitive_member_of(
-                    &proof.payload.delegate,
-                    revoker_id,
-                    revocation.payload.revoke.payload.can,
-                )
-                .await
+                if proof.payload.can < revoke.payload.can
+                    || !is_transitive_member_of(
+                        &proof.payload.delegate,
+                        revoker_id,
+                        revoke.payload.can,
+                    )
+                    .await
                 {
                     return Err(AddError::InvalidProofChain);
                 }
-- 
2.43.0


From c59741aa6cbc00b09e99e517a228ceaef0faf084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 02/38] fix: check every link of a proof chain against the
 access that link claims

Only the newest delegation was compared with each proof, so a chain whose
middle link grants more than it rests on was accepted and replayed.
---
 keyhive_core/src/principal/group/state.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index bc76803..87bb5ef 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -159,9 +159,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let lineage = delegation.payload.proof_lineage();
         let heads = std::iter::once(delegation.as_ref()).chain(lineage.iter().map(|p| p.as_ref()));
         for (head, proof) in heads.zip(lineage.iter()) {
-            if delegation.payload.can > proof.payload.can {
+            if head.payload.can > proof.payload.can {
                 return Err(AddError::Escelation {
-                    claimed: delegation.payload.can,
+                    claimed: head.payload.can,
                     proof: proof.payload.can,
                 });
             }
@@ -170,12 +170,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 // The signer doesn't directly match the proof's delegate.
                 // Check transitive membership through a group/doc intermediary.
                 let head_id = Identifier::from(head.verifying_key());
-                if !is_transitive_member_of(
-                    &proof.payload.delegate,
-                    head_id,
-                    delegation.payload.can,
-                )
-                .await
+                if !is_transitive_member_of(&proof.payload.delegate, head_id, head.payload.can)
+                    .await
                 {
                     return Err(AddError::InvalidProofChain);
                 }
@@ -241,9 +237,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             let lineage = proof.payload.proof_lineage();
             let heads = std::iter::once(proof.as_ref()).chain(lineage.iter().map(|p| p.as_ref()));
             for (head, next_proof) in heads.zip(lineage.iter()) {
-                if proof.payload.can > next_proof.payload.can {
+                if head.payload.can > next_proof.payload.can {
                     return Err(AddError::Escelation {
-                        claimed: proof.payload.can,
+                        claimed: head.payload.can,
                         proof: next_proof.payload.can,
                     });
                 }
@@ -253,7 +249,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     if !is_transitive_member_of(
                         &next_proof.payload.delegate,
                         head_id,
-                        proof.payload.can,
+                        head.payload.can,
                     )
                     .await
                     {
-- 
2.43.0


From be6348d57aca2e4e331976658cd66c818fe97899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 03/38] fix: report the weakest link of the best chain as
 transitive access

Nested members were given the access of the parent path regardless of their own
delegation, later and better paths were skipped, and the result depended on the
order in which members were visited.
---
 keyhive_core/src/principal/group.rs | 86 ++++++++---------------------
 1 file changed, 22 insertions(+), 64 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 069d18c..d8d4471 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -269,78 +269,36 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        struct GroupAccess<
-            G: FutureForm,
-            Z: AsyncSigner<G>,
-            U: ContentRef,
-            M: MembershipListener<G, Z, U>,
-        > {
-            agent: Agent<G, Z, U, M>,
-            agent_access: Access,
-            parent_access: Access,
-        }
-
-        let mut explore: Vec<GroupAccess<F, S, T, L>> = vec![];
-        let mut seen: HashSet<([u8; 64], Access)> = HashSet::new();
-
-        for member in self.members.keys() {
-            let dlg = self
-                .get_capability(member)
-                .expect("members have capabilities by defintion");
-
-            seen.insert((dlg.signature.to_bytes(), Access::Admin));
+        // An agent's access is the best, over all chains of delegations leading
+        // to it, of the weakest link along the chain. An agent is explored
+        // (again) only when it's reached with strictly more access than before.
+        let mut caps: HashMap<Identifier, (Agent<F, S, T, L>, Access)> = HashMap::new();
+        let mut explore: Vec<(Agent<F, S, T, L>, Access)> = vec![];
 
-            explore.push(GroupAccess {
-                agent: dlg.payload.delegate.clone(),
-                agent_access: dlg.payload.can,
-                parent_access: Access::Admin,
-            });
+        for dlgs in self.members.values() {
+            for dlg in dlgs.iter() {
+                explore.push((dlg.payload.delegate.dupe(), dlg.payload.can));
+            }
         }
 
-        let mut caps: HashMap<Identifier, (Agent<F, S, T, L>, Access)> = HashMap::new();
-
-        while let Some(GroupAccess {
-            agent: member,
-            agent_access: access,
-            parent_access,
-        }) = explore.pop()
-        {
-            let id = member.id();
+        while let Some((agent, access)) = explore.pop() {
+            let id = agent.id();
             if id == self.id() {
                 continue;
             }
 
-            let best_access = *caps
-                .get(&id)
-                .map(|(_, existing_access)| existing_access.max(&access))
-                .unwrap_or(&access);
-
-            let current_path_access = access.min(parent_access);
-            caps.insert(member.id(), (member.dupe(), current_path_access));
-
-            if let Some(membered) = match member {
-                Agent::Group(id, inner_group) => Some(Membered::Group(id, inner_group.dupe())),
-                Agent::Document(id, doc) => Some(Membered::Document(id, doc.dupe())),
-                _ => None,
-            } {
-                for (mem_id, dlgs) in membered.members().await.iter() {
-                    let dlg = membered
-                        .get_capability(mem_id)
-                        .await
-                        .expect("members have capabilities by defintion");
-
-                    caps.insert(*mem_id, (dlg.payload.delegate.dupe(), best_access));
-
-                    'inner: for sub_dlg in dlgs.iter() {
-                        if !seen.insert((sub_dlg.signature.to_bytes(), dlg.payload.can)) {
-                            continue 'inner;
-                        }
+            if let Some((_, best_access)) = caps.get(&id) {
+                if *best_access >= access {
+                    continue;
+                }
+            }
+
+            caps.insert(id, (agent.dupe(), access));
 
-                        explore.push(GroupAccess {
-                            agent: sub_dlg.payload.delegate.dupe(),
-                            agent_access: sub_dlg.payload.can,
-                            parent_access: best_access,
-                        });
+            if let Some(membered) = agent.as_membered() {
+                for dlgs in membered.members().await.values() {
+                    for dlg in dlgs.iter() {
+                        explore.push((dlg.payload.delegate.dupe(), dlg.payload.can.min(access)));
                     }
                 }
             }
-- 
2.43.0


From d4351572b335a6c6c89a67a6408e56460ec8139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 04/38] fix: don't lock a group again while checking access
 through its own members

Receiving a delegation or revocation authorised through a member group that in
turn contains the receiving group (mutual membership) never returned.
---
 keyhive_core/src/principal/group.rs       | 19 ++++++++++++++++---
 keyhive_core/src/principal/group/state.rs | 17 ++++++++++++++---
 keyhive_core/src/principal/membered.rs    | 19 +++++++++++++++++++
 3 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index d8d4471..151152c 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -267,8 +267,17 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &self.members
     }
 
-    #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        self.transitive_members_outside(self.id()).await
+    }
+
+    /// The transitive members that are reachable without going through the
+    /// group or document `outside`, which the caller may be holding the lock of.
+    #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
+    pub(crate) async fn transitive_members_outside(
+        &self,
+        outside: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         // An agent's access is the best, over all chains of delegations leading
         // to it, of the weakest link along the chain. An agent is explored
         // (again) only when it's reached with strictly more access than before.
@@ -295,6 +304,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
             caps.insert(id, (agent.dupe(), access));
 
+            if id == outside {
+                continue;
+            }
+
             if let Some(membered) = agent.as_membered() {
                 for dlgs in membered.members().await.values() {
                     for dlg in dlgs.iter() {
@@ -457,7 +470,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     .expect("members have capabilities by definition");
 
                 if let Some(m) = dlg.payload.delegate.as_membered() {
-                    let sub_members = m.transitive_members().await;
+                    let sub_members = m.transitive_members_outside(self.id()).await;
                     if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                         if *sub_access >= can {
                             best_proof = Some(dlg.dupe());
@@ -617,7 +630,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             .expect("members have capabilities by definition");
 
                         if let Some(m) = dlg.payload.delegate.as_membered() {
-                            let sub_members = m.transitive_members().await;
+                            let sub_members = m.transitive_members_outside(self.id()).await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                                 if *sub_access >= to_revoke.payload.can {
                                     let r = self
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 87bb5ef..23b9fc9 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -170,8 +170,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 // The signer doesn't directly match the proof's delegate.
                 // Check transitive membership through a group/doc intermediary.
                 let head_id = Identifier::from(head.verifying_key());
-                if !is_transitive_member_of(&proof.payload.delegate, head_id, head.payload.can)
-                    .await
+                if !is_transitive_member_of(
+                    self.id(),
+                    &proof.payload.delegate,
+                    head_id,
+                    head.payload.can,
+                )
+                .await
                 {
                     return Err(AddError::InvalidProofChain);
                 }
@@ -224,6 +229,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 let revoker_id = Identifier::from(revocation.issuer);
                 if proof.payload.can < revoke.payload.can
                     || !is_transitive_member_of(
+                        self.id(),
                         &proof.payload.delegate,
                         revoker_id,
                         revoke.payload.can,
@@ -247,6 +253,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 if head.verifying_key() != next_proof.payload.delegate.verifying_key() {
                     let head_id = Identifier::from(head.verifying_key());
                     if !is_transitive_member_of(
+                        self.id(),
                         &next_proof.payload.delegate,
                         head_id,
                         head.payload.can,
@@ -313,12 +320,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 }
 
+/// Whether `member_id` has at least `min_access` to `delegate`. The caller holds
+/// the lock of the group or document `subject_id`, which may itself be a member
+/// of `delegate` and isn't searched.
 async fn is_transitive_member_of<
     F: FutureForm,
     S: AsyncSigner<F>,
     T: ContentRef,
     L: MembershipListener<F, S, T>,
 >(
+    subject_id: Identifier,
     delegate: &Agent<F, S, T, L>,
     member_id: Identifier,
     min_access: Access,
@@ -326,7 +337,7 @@ async fn is_transitive_member_of<
     let Some(m) = delegate.as_membered() else {
         return false;
     };
-    m.transitive_members()
+    m.transitive_members_outside(subject_id)
         .await
         .get(&member_id)
         .map(|(_, access)| *access >= min_access)
diff --git a/keyhive_core/src/principal/membered.rs b/keyhive_core/src/principal/membered.rs
index 55bb547..b240e6a 100644
--- a/keyhive_core/src/principal/membered.rs
+++ b/keyhive_core/src/principal/membered.rs
@@ -105,6 +105,25 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
     }
 
+    /// The transitive members that are reachable without going through the
+    /// group or document `outside`, which the caller may be holding the lock of.
+    pub(crate) async fn transitive_members_outside(
+        &self,
+        outside: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        match self {
+            _ if Identifier::from(self.agent_id()) == outside => HashMap::new(),
+            Membered::Group(_, group) => {
+                let locked = group.lock().await;
+                locked.transitive_members_outside(outside).await
+            }
+            Membered::Document(_, doc) => {
+                let locked = doc.lock().await;
+                locked.group.transitive_members_outside(outside).await
+            }
+        }
+    }
+
     #[allow(clippy::type_complexity)]
     pub async fn add_member(
         &self,
-- 
2.43.0


From 7ded7e99223017daff20a200f21daa57cbb877c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 05/38] fix: drop whatever rested only on a revoked delegation
 when rebuilding a group

Dependants of a revoked delegation kept their access whenever the issuer of the
revoked delegation was still a member (or was the group itself), and deeper
dependants stayed in the member list when the cascade did run.
---
 keyhive_core/src/principal/group.rs | 169 ++++++++++++----------------
 1 file changed, 71 insertions(+), 98 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 151152c..fab6000 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -722,13 +722,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.active_revocations.clear();
 
         #[allow(clippy::type_complexity)]
-        let mut dlgs_in_play: HashMap<[u8; 64], Arc<Signed<Delegation<F, S, T, L>>>> =
-            HashMap::new();
+        let mut known: Vec<Arc<Signed<Delegation<F, S, T, L>>>> = vec![];
         let mut revoked_dlgs: HashSet<[u8; 64]> = HashSet::new();
 
-        // {dlg_dep => Set<dlgs that depend on it>}
-        let mut reverse_dlg_dep_map: HashMap<[u8; 64], HashSet<[u8; 64]>> = HashMap::new();
-
         let mut ops = MembershipOperation::reverse_topsort(
             &self.state.delegation_heads,
             &self.state.revocation_heads,
@@ -736,64 +732,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
         while let Some((_, op)) = ops.pop() {
             match op {
-                MembershipOperation::Delegation(d) => {
-                    // NOTE: friendly reminder that the topsort already includes all ancestors
-                    if let Some(found_proof) = &d.payload.proof {
-                        reverse_dlg_dep_map
-                            .entry(found_proof.signature.to_bytes())
-                            .and_modify(|set| {
-                                set.insert(d.signature.to_bytes());
-                            })
-                            .or_insert_with(|| HashSet::from_iter([d.signature.to_bytes()]));
-
-                        // If the proof was directly revoked, then check if they've been
-                        // re-added some other way. Since `rebuild` recurses,
-                        // we only need to check one level.
-                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())
-                            || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
-                        {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if alt_proofs.iter().filter(|d| *d != found_proof).all(
-                                    |alt_proof| alt_proof.payload.can < found_proof.payload.can,
-                                ) {
-                                    // No suitable proofs
-                                    continue;
-                                }
-                            } else if found_proof.issuer != self.verifying_key() {
-                                continue;
-                            }
-                        }
-                    } else if d.issuer != self.verifying_key() {
-                        debug_assert!(false, "Delegation without valid root proof");
-                        continue;
-                    }
-
-                    if revoked_dlgs.contains(&d.signature.to_bytes()) {
-                        continue;
-                    }
-
-                    dlgs_in_play.insert(d.signature.to_bytes(), d.dupe());
-
-                    if let Some(mut_dlgs) = self.members.get_mut(&d.payload.delegate.id()) {
-                        mut_dlgs.push(d.dupe());
-                    } else {
-                        self.members
-                            .insert(d.payload.delegate.id(), nonempty![d.dupe()]);
-                    }
-                }
+                // NOTE: friendly reminder that the topsort already includes all ancestors
+                MembershipOperation::Delegation(d) => known.push(d),
                 MembershipOperation::Revocation(r) => {
-                    if let Some(found_proof) = &r.payload.proof {
-                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())
-                            || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
-                        {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if !alt_proofs
-                                    .iter()
-                                    .any(|p| p.payload.can >= found_proof.payload.can)
-                                {
-                                    continue;
-                                }
-                            }
+                    if let Some(proof) = &r.payload.proof {
+                        let standing = self.standing_delegations(&known, &revoked_dlgs);
+                        if !self.has_basis(r.issuer, proof, &standing) {
+                            continue;
                         }
                     } else if r.issuer != self.verifying_key() {
                         debug_assert!(false, "Revocation without valid root proof");
@@ -802,52 +747,80 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
                     self.active_revocations
                         .insert(r.signature.to_bytes(), r.dupe());
+                    revoked_dlgs.insert(r.payload.revoke.signature.to_bytes());
+                }
+            }
+        }
 
-                    // { Agent => delegation to drop }
-                    let mut to_drop: Vec<(Identifier, [u8; 64])> = vec![];
-
-                    let mut next_to_revoke = vec![r.payload.revoke.signature.to_bytes()];
-                    while let Some(sig_to_revoke) = next_to_revoke.pop() {
-                        revoked_dlgs.insert(sig_to_revoke);
+        let standing = self.standing_delegations(&known, &revoked_dlgs);
+        for d in known {
+            if !standing.contains_key(&d.signature.to_bytes()) {
+                continue;
+            }
 
-                        if let Some(dlg) = dlgs_in_play.remove(&sig_to_revoke) {
-                            to_drop.push((dlg.payload.delegate.id(), sig_to_revoke));
-                        }
+            if let Some(mut_dlgs) = self.members.get_mut(&d.payload.delegate.id()) {
+                mut_dlgs.push(d);
+            } else {
+                self.members.insert(d.payload.delegate.id(), nonempty![d]);
+            }
+        }
+    }
 
-                        if let Some(dlg_sigs_to_revoke) = reverse_dlg_dep_map.get(&sig_to_revoke) {
-                            for dlg_sig in dlg_sigs_to_revoke.iter() {
-                                revoked_dlgs.insert(*dlg_sig);
+    /// The delegations that confer access: those that aren't revoked, and were
+    /// issued by the group itself or have a standing basis. Whatever rested
+    /// only on a revoked delegation is hence out, too.
+    #[allow(clippy::type_complexity)]
+    fn standing_delegations(
+        &self,
+        known: &[Arc<Signed<Delegation<F, S, T, L>>>],
+        revoked_dlgs: &HashSet<[u8; 64]>,
+    ) -> HashMap<[u8; 64], Arc<Signed<Delegation<F, S, T, L>>>> {
+        let mut standing = HashMap::new();
+        loop {
+            let before = standing.len();
+
+            for d in known {
+                let sig = d.signature.to_bytes();
+                if revoked_dlgs.contains(&sig) || standing.contains_key(&sig) {
+                    continue;
+                }
 
-                                if let Some(dep_dlg) = dlgs_in_play.remove(dlg_sig) {
-                                    next_to_revoke.push(dep_dlg.signature.to_bytes());
-                                }
-                            }
-                        }
-                    }
+                let has_basis = match &d.payload.proof {
+                    Some(proof) => self.has_basis(d.issuer, proof, &standing),
+                    None => d.issuer == self.verifying_key(),
+                };
 
-                    for (id, sig) in to_drop {
-                        let remaining = self
-                            .members
-                            .get(&id)
-                            .map(|dlgs| {
-                                dlgs.iter()
-                                    .filter(|dlg| dlg.signature.to_bytes() != sig)
-                                    .cloned()
-                                    .collect()
-                            })
-                            .unwrap_or_default();
-
-                        if let Some(dlgs) = NonEmpty::from_vec(remaining) {
-                            self.members.insert(id, dlgs);
-                        } else {
-                            self.members.remove(&id);
-                        }
-                    }
+                if has_basis {
+                    standing.insert(sig, d.dupe());
                 }
             }
+
+            // A delegation may rest on one that comes later in the order
+            if standing.len() == before {
+                return standing;
+            }
         }
     }
 
+    /// Whether `proof` still gives `issuer` its authority. If the proof doesn't
+    /// stand, check if the issuer has been re-added some other way.
+    #[allow(clippy::type_complexity)]
+    fn has_basis(
+        &self,
+        issuer: ed25519_dalek::VerifyingKey,
+        proof: &Signed<Delegation<F, S, T, L>>,
+        standing: &HashMap<[u8; 64], Arc<Signed<Delegation<F, S, T, L>>>>,
+    ) -> bool {
+        if issuer == self.verifying_key() || standing.contains_key(&proof.signature.to_bytes()) {
+            return true;
+        }
+
+        standing.values().any(|alt_proof| {
+            alt_proof.payload.delegate.verifying_key() == issuer
+                && alt_proof.payload.can >= proof.payload.can
+        })
+    }
+
     pub(crate) fn dummy_from_archive(
         archive: GroupArchive<T>,
         delegations: Arc<Mutex<DelegationStore<F, S, T, L>>>,
-- 
2.43.0


From 238eb7f1174647aa4e59ccc58f78fd27ab31e639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 06/38] fix: keep all operations of a group whose revocations
 can't precede their dependants

A revocation authorised through a delegation derived from the revoked one closed
a cycle in the sort, which then silently left out that delegation and all of its
ancestors, up to the group's root.
---
 .../principal/group/membership_operation.rs   | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index e376790..017a689 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -379,11 +379,33 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         let mut dependencies = vec![];
+        let mut causal_only = false;
 
         while !adjacencies.is_empty() {
             let batch = adjacencies.pop_frontier();
             if batch.is_empty() {
-                break; // cycle guard
+                if causal_only {
+                    break; // cycle guard
+                }
+
+                // A revocation may be authorised through the very delegation
+                // whose proof it revokes, in which case it can't come before
+                // that delegation. Only causality is left to go by then.
+                causal_only = true;
+                let emitted: HashSet<_> = dependencies.iter().map(|(d, _)| *d).collect();
+                adjacencies = Topsort::new();
+                for (digest, (op, parent_digests)) in all_ops.iter() {
+                    if emitted.contains(digest) {
+                        continue;
+                    }
+                    adjacencies.add_node((*digest, op));
+                    for parent_digest in parent_digests {
+                        if let Some((parent_op, _)) = all_ops.get(parent_digest) {
+                            adjacencies.add_dependency((*digest, op), (*parent_digest, parent_op));
+                        }
+                    }
+                }
+                continue;
             }
 
             let (mut revocations, mut others): (Vec<_>, Vec<_>) =
-- 
2.43.0


From 1e6b87ff562bd00c54a53a9326f5f2ac6675ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 07/38] fix: keep the group made from an individual that
 delegates, and don't hold map locks while building it

---
 keyhive_core/src/keyhive.rs | 72 +++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index bf5ad8d..a73aef1 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1619,33 +1619,30 @@ impl<
 
         let subject_id = delegation.subject_id();
         let delegation = Arc::new(delegation);
-        let mut found = false;
-        {
-            if let Some(group) = self.groups.lock().await.get(&GroupId(subject_id)) {
-                found = true;
-                group
-                    .lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(doc) = self.docs.lock().await.get(&DocumentId(subject_id)) {
-                found = true;
-                doc.lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(indie) = self
-                .individuals
+        let group = { self.groups.lock().await.get(&GroupId(subject_id)).duped() };
+        let doc = { self.docs.lock().await.get(&DocumentId(subject_id)).duped() };
+        let indie = {
+            self.individuals
                 .lock()
                 .await
-                .remove(&IndividualId(subject_id))
-            {
-                found = true;
-                self.promote_individual_to_group(indie, delegation.clone())
-                    .await;
-            }
-        }
-        if !found {
+                .get(&subject_id.into())
+                .duped()
+        };
+        if let Some(group) = group {
+            group
+                .lock()
+                .await
+                .receive_delegation(delegation.clone())
+                .await?;
+        } else if let Some(doc) = doc {
+            doc.lock()
+                .await
+                .receive_delegation(delegation.clone())
+                .await?;
+        } else if let Some(indie) = indie {
+            self.promote_individual_to_group(indie, delegation.clone())
+                .await;
+        } else {
             let group = Group::new(
                 GroupId(subject_id),
                 delegation.dupe(),
@@ -1701,18 +1698,21 @@ impl<
 
         let id = revocation.subject_id();
         let revocation = Arc::new(revocation);
-        if let Some(group) = self.groups.lock().await.get(&GroupId(id)) {
+        let group = { self.groups.lock().await.get(&GroupId(id)).duped() };
+        let doc = { self.docs.lock().await.get(&DocumentId(id)).duped() };
+        let indie = { self.individuals.lock().await.get(&id.into()).duped() };
+        if let Some(group) = group {
             group
                 .lock()
                 .await
                 .receive_revocation(revocation.clone())
                 .await?;
-        } else if let Some(doc) = self.docs.lock().await.get(&DocumentId(id)) {
+        } else if let Some(doc) = doc {
             doc.lock()
                 .await
                 .receive_revocation(revocation.clone())
                 .await?;
-        } else if let Some(indie) = self.individuals.lock().await.remove(&IndividualId(id)) {
+        } else if let Some(indie) = indie {
             let group = self
                 .promote_individual_to_group(indie, revocation.payload.revoke.dupe())
                 .await;
@@ -1849,12 +1849,22 @@ impl<
             .await,
         ));
 
-        let agent = Agent::Group(group.lock().await.group_id(), group.dupe());
+        let group_id = group.lock().await.group_id();
+        let agent = Agent::Group(group_id, group.dupe());
+
+        {
+            let mut locked_groups = self.groups.lock().await;
+            locked_groups.insert(group_id, group.dupe());
+        }
+        self.individuals
+            .lock()
+            .await
+            .remove(&IndividualId(group_id.into()));
 
         {
             let mut locked_delegations = self.delegations.lock().await;
             for (_digest, dlg) in locked_delegations.clone().iter() {
-                if dlg.payload.delegate == agent {
+                if dlg.payload.delegate.id() == agent.id() {
                     locked_delegations.insert(Arc::new(Signed::new(
                         Delegation {
                             delegate: agent.dupe(),
@@ -1887,7 +1897,7 @@ impl<
                             proof: if let Some(proof) = rev.payload.proof.dupe() {
                                 self.delegations.lock().await.get(&Digest::hash(&proof))
                             } else {
-                                panic!("revoked delegation to be available");
+                                None
                             },
                             after_content: rev.payload.after_content.clone(),
                         },
-- 
2.43.0


From 5472760b0a1eeb0f664a8e028f216d00291e16cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 08/38] fix: verify prekey operations and contact cards from
 agents not seen before

---
 keyhive_core/src/keyhive.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index a73aef1..bbac552 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -343,6 +343,8 @@ impl<
         &self,
         contact_card: &ContactCard,
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
+        contact_card.op().try_verify()?;
+
         let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
             indie
                 .lock()
@@ -1535,6 +1537,8 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn receive_prekey_op(&self, key_op: &KeyOp) -> Result<(), ReceivePrekeyOpError> {
+        key_op.try_verify()?;
+
         let id = Identifier(*key_op.issuer());
         // Drop any prekey op addressed to Public so its individual can never
         // expand or rotate.
-- 
2.43.0


From 78ac4367cc472d5290e4b4578e68d4350d67d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 09/38] fix: pick the same prekey on every replica, and never
 one out of range

---
 keyhive_core/src/principal/individual.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index da4572c..64318c6 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -123,7 +123,10 @@ impl Individual {
         let prekeys_len = self.prekeys.len();
         let idx = pseudorandom_in_range(bytes.as_slice(), prekeys_len);
 
-        self.prekeys.iter().nth(idx).expect("index to be in range")
+        // NOTE the iteration order of a `HashSet` differs between replicas
+        let mut prekeys: Vec<&ShareKey> = self.prekeys.iter().collect();
+        prekeys.sort_unstable();
+        prekeys.get(idx).expect("index to be in range")
     }
 
     pub fn prekey_ops(&self) -> &CaMap<KeyOp> {
@@ -222,7 +225,7 @@ fn pseudorandom_in_range(seed: &[u8], max: usize) -> usize {
     while idx.is_none() {
         hash_stream.fill(&mut buf);
         let raw_idx: usize = clamp(buf, shiftsize);
-        if raw_idx <= max {
+        if raw_idx < max.max(1) {
             idx = Some(raw_idx)
         }
     }
-- 
2.43.0


From d36ff2248d5f9b68dc8b1c3d8e999e69a4d73df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 10/38] fix: never advertise an empty set of prekeys, and order
 every prekey operation exactly once

---
 keyhive_core/src/principal/individual/op.rs   | 38 +++++++++++++------
 .../src/principal/individual/state.rs         |  5 +++
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/keyhive_core/src/principal/individual/op.rs b/keyhive_core/src/principal/individual/op.rs
index 2963a81..8edffb2 100644
--- a/keyhive_core/src/principal/individual/op.rs
+++ b/keyhive_core/src/principal/individual/op.rs
@@ -14,7 +14,7 @@ use keyhive_crypto::{
 };
 use serde::{Deserialize, Serialize};
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     sync::Arc,
 };
 
@@ -35,33 +35,47 @@ pub enum KeyOp {
 
 impl KeyOp {
     pub fn topsort(key_ops: &CaMap<KeyOp>) -> Vec<Arc<KeyOp>> {
-        let mut heads: Vec<Arc<KeyOp>> = vec![];
-        let mut rotate_key_ops: HashMap<ShareKey, Vec<Arc<KeyOp>>> = HashMap::new();
+        let mut introducing: HashMap<ShareKey, usize> = HashMap::new();
+        for key_op in key_ops.values() {
+            *introducing.entry(*key_op.new_key()).or_default() += 1;
+        }
 
+        let mut heads: Vec<Arc<KeyOp>> = vec![];
+        let mut rotate_key_ops: BTreeMap<ShareKey, Vec<Arc<KeyOp>>> = BTreeMap::new();
         for key_op in key_ops.values() {
             match key_op.as_ref() {
-                KeyOp::Add(_add) => {
-                    heads.push(key_op.dupe());
-                }
-                KeyOp::Rotate(rot) => {
+                KeyOp::Rotate(rot) if introducing.contains_key(&rot.payload.old) => {
                     rotate_key_ops
                         .entry(rot.payload.old)
                         .or_default()
                         .push(key_op.dupe());
                 }
+                _ => heads.push(key_op.dupe()),
             }
         }
 
         let mut topsorted = vec![];
 
-        while let Some(head) = heads.pop() {
-            if let Some(ops) = rotate_key_ops.get(head.new_key()) {
-                for op in ops.iter() {
-                    heads.push(op.dupe());
+        loop {
+            while let Some(head) = heads.pop() {
+                // A key may be introduced more than once
+                if let Some(left) = introducing.get_mut(head.new_key()) {
+                    *left -= 1;
+                    if *left == 0 {
+                        if let Some(ops) = rotate_key_ops.remove(head.new_key()) {
+                            heads.extend(ops);
+                        }
+                    }
                 }
+
+                topsorted.push(head);
             }
 
-            topsorted.push(head.dupe());
+            // Only rotations that (transitively) replace each other are left
+            match rotate_key_ops.pop_first() {
+                Some((_old, ops)) => heads.extend(ops),
+                None => break,
+            }
         }
 
         topsorted
diff --git a/keyhive_core/src/principal/individual/state.rs b/keyhive_core/src/principal/individual/state.rs
index 561fa8e..6e7a0e2 100644
--- a/keyhive_core/src/principal/individual/state.rs
+++ b/keyhive_core/src/principal/individual/state.rs
@@ -142,6 +142,11 @@ impl PrekeyState {
             keys.remove(&tombstone);
         }
 
+        // Rotations that replace each other would otherwise leave no key at all
+        if keys.is_empty() {
+            return self.all_keys();
+        }
+
         keys
     }
 }
-- 
2.43.0


From 56c63b7c022f858a4f30ded823e7c3d598dd8014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 11/38] fix: keep the indices of the ciphertext store in step
 with what it holds

---
 keyhive_core/src/store/ciphertext/memory.rs | 58 ++++++++++++---------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/keyhive_core/src/store/ciphertext/memory.rs b/keyhive_core/src/store/ciphertext/memory.rs
index 590a662..4caa1f1 100644
--- a/keyhive_core/src/store/ciphertext/memory.rs
+++ b/keyhive_core/src/store/ciphertext/memory.rs
@@ -76,7 +76,9 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
                     if let Some(digests) = locked.refs_to_digests.get(content_ref) {
                         for digest in digests.iter() {
                             if let Some((_, encrypted)) = locked.store.get(digest) {
-                                acc.push(encrypted.dupe());
+                                if encrypted.pcs_update_op_hash == *pcs_update_op {
+                                    acc.push(encrypted.dupe());
+                                }
                             }
                         }
                     }
@@ -133,33 +135,13 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
         let mut locked = self.0.lock().await;
         let (_, encrypted) = locked.store.remove(digest)?;
 
-        locked
-            .ops_to_refs
-            .entry(encrypted.pcs_update_op_hash)
-            .and_modify(|crs| {
-                crs.remove(&encrypted.content_ref);
-            });
-
-        if locked
-            .ops_to_refs
-            .get(&encrypted.pcs_update_op_hash)?
-            .is_empty()
-        {
-            locked.ops_to_refs.remove(&encrypted.pcs_update_op_hash);
-        }
-
-        locked
-            .refs_to_digests
-            .entry(encrypted.content_ref.clone())
-            .and_modify(|digests| {
-                digests.remove(digest);
-            });
-
-        if let Some(digests) = locked.refs_to_digests.get(&encrypted.content_ref) {
+        if let Some(digests) = locked.refs_to_digests.get_mut(&encrypted.content_ref) {
+            digests.remove(digest);
             if digests.is_empty() {
                 locked.refs_to_digests.remove(&encrypted.content_ref);
             }
         }
+        locked.unindex_op(&encrypted);
 
         Some(encrypted)
     }
@@ -169,7 +151,9 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
         let mut locked = self.0.lock().await;
         if let Some(digests) = locked.refs_to_digests.remove(content_ref) {
             for digest in digests.iter() {
-                locked.store.remove(digest);
+                if let Some((_, encrypted)) = locked.store.remove(digest) {
+                    locked.unindex_op(&encrypted);
+                }
             }
             true
         } else {
@@ -178,6 +162,30 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
     }
 }
 
+impl<Cr: ContentRef, P> MemoryCiphertextStoreInner<Cr, P> {
+    /// Forget that the PCS update of a removed ciphertext was used for its content,
+    /// unless a remaining ciphertext of that content still uses it.
+    fn unindex_op(&mut self, removed: &EncryptedContent<P, Cr>) {
+        let still_used = self
+            .refs_to_digests
+            .get(&removed.content_ref)
+            .into_iter()
+            .flatten()
+            .filter_map(|digest| self.store.get(digest))
+            .any(|(_, other)| other.pcs_update_op_hash == removed.pcs_update_op_hash);
+        if still_used {
+            return;
+        }
+
+        if let Some(refs) = self.ops_to_refs.get_mut(&removed.pcs_update_op_hash) {
+            refs.remove(&removed.content_ref);
+            if refs.is_empty() {
+                self.ops_to_refs.remove(&removed.pcs_update_op_hash);
+            }
+        }
+    }
+}
+
 impl<T: ContentRef, P> Default for MemoryCiphertextStore<T, P> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 183be6dcb086d064170fc3df8d465339d7558094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 12/38] fix: report missing ancestors of the entry point, and
 only the keys that decrypted something

---
 keyhive_core/src/principal/document.rs | 7 ++++++-
 keyhive_core/src/store/ciphertext.rs   | 8 ++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 9c02e05..6f2678b 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -573,7 +573,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        Ok(store.try_causal_decrypt(&mut to_decrypt).await?)
+        let mut result = store.try_causal_decrypt(&mut to_decrypt).await;
+        match &mut result {
+            Ok(progress) => progress.next.extend(acc.next),
+            Err(e) => e.progress.next.extend(acc.next),
+        }
+        Ok(result?)
     }
 
     #[instrument(skip_all)]
diff --git a/keyhive_core/src/store/ciphertext.rs b/keyhive_core/src/store/ciphertext.rs
index c9e9f00..937ab17 100644
--- a/keyhive_core/src/store/ciphertext.rs
+++ b/keyhive_core/src/store/ciphertext.rs
@@ -176,7 +176,6 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                     continue;
                 }
 
-                progress.keys.insert(ciphertext.content_ref.clone(), key);
                 let content_ref = ciphertext.content_ref.clone();
 
                 match ciphertext.try_decrypt(key) {
@@ -198,15 +197,16 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                                 continue;
                             }
                             Ok(envelope) => {
+                                progress.keys.insert(content_ref.clone(), key);
+                                cannot.remove(&content_ref);
+
                                 for (ancestor_ref, ancestor_key) in envelope.ancestors.iter() {
                                     match self.get_ciphertext(ancestor_ref).await {
                                         Err(e) => {
-                                            seen.remove(&content_ref);
                                             cannot.insert(
-                                                content_ref.clone(),
+                                                ancestor_ref.clone(),
                                                 ErrorReason::GetCiphertextError(e),
                                             );
-                                            continue;
                                         }
                                         Ok(None) => {
                                             progress
-- 
2.43.0


From 6b368e89e3fe49ee3fd0a524cb21d00dde6ff7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 13/38] fix: fork the active agent's prekeys instead of sharing
 them with the fork

---
 keyhive_core/src/principal/active.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/principal/active.rs b/keyhive_core/src/principal/active.rs
index 4eeda14..e772c3f 100644
--- a/keyhive_core/src/principal/active.rs
+++ b/keyhive_core/src/principal/active.rs
@@ -24,7 +24,7 @@ use crate::{
         membered::Membered,
     },
     transact::{
-        fork::Fork,
+        fork::{Fork, ForkAsync},
         merge::{Merge, MergeAsync},
     },
 };
@@ -357,19 +357,21 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: PrekeyListener<F>> Veri
     }
 }
 
-impl<F: FutureForm, S: AsyncSigner<F> + Clone, T: ContentRef, L: PrekeyListener<F>> Fork
+impl<F: FutureForm, S: AsyncSigner<F> + Clone, T: ContentRef, L: PrekeyListener<F>> ForkAsync
     for Active<F, S, T, L>
 where
     Log<F, S, T>: MembershipListener<F, S, T>,
 {
-    type Forked = Active<F, S, T, Log<F, S, T>>;
+    type AsyncForked = Active<F, S, T, Log<F, S, T>>;
 
-    fn fork(&self) -> Self::Forked {
+    async fn fork_async(&self) -> Self::AsyncForked {
+        let prekey_pairs = { self.prekey_pairs.lock().await.clone() };
+        let individual = { self.individual.lock().await.fork() };
         Active {
             id: self.id,
             signer: self.signer.clone(),
-            prekey_pairs: self.prekey_pairs.clone(),
-            individual: self.individual.clone(),
+            prekey_pairs: Arc::new(Mutex::new(prekey_pairs)),
+            individual: Arc::new(Mutex::new(individual)),
             listener: Log::new(),
             _phantom: PhantomData,
         }
-- 
2.43.0


From b0534b11ade2b79d3854a6dd05c7ae9cc93187fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:30 +0000
Subject: [PATCH 14/38] fix: restore which revocations are in force, and keep
 key agreements and pending events when ingesting an archive

---
 keyhive_core/src/keyhive.rs | 46 ++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index bbac552..50a7313 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -4,7 +4,7 @@ use crate::{
     ability::Ability,
     access::Access,
     archive::Archive,
-    cgka::AllCgkaOps,
+    cgka::{AllCgkaOps, Cgka},
     contact_card::ContactCard,
     crypto::signed_ext::{SignedId, SignedSubjectId},
     error::missing_dependency::MissingDependency,
@@ -2191,6 +2191,12 @@ impl<
                 );
             }
 
+            drop(read_dlgs);
+            drop(read_revs);
+
+            // NOTE the archive doesn't say which revocations are in force
+            group.rebuild().await;
+
             Ok(())
         }
 
@@ -2293,7 +2299,7 @@ impl<
                 locked_indies.insert(id, Arc::new(Mutex::new(indie)));
             }
         }
-        let events = archive
+        let mut events = archive
             .topsorted_ops
             .into_iter()
             .map(|(_, op)| match op {
@@ -2301,7 +2307,41 @@ impl<
                 StaticMembershipOperation::Revocation(signed) => StaticEvent::Revoked(signed),
             })
             .collect::<Vec<_>>();
-        Ok(self.ingest_unsorted_static_events(events).await)
+        let archived_docs = archive.docs.values().map(|doc| &doc.group);
+        for group in archive.groups.values().chain(archived_docs) {
+            if let IdOrIndividual::Individual(indie) = &group.id_or_indie {
+                events.extend(indie.prekey_ops().values().map(|op| match op.as_ref() {
+                    KeyOp::Add(add) => StaticEvent::PrekeysExpanded(Box::new((**add).clone())),
+                    KeyOp::Rotate(rot) => StaticEvent::PrekeyRotated(Box::new((**rot).clone())),
+                }));
+            }
+        }
+        for doc in archive.docs.values() {
+            if let Some(Ok(epochs)) = doc.cgka.as_ref().map(Cgka::ops) {
+                events.extend(
+                    epochs
+                        .iter()
+                        .flat_map(|epoch| epoch.iter())
+                        .map(|op| StaticEvent::CgkaOperation(Box::new(op.as_ref().clone()))),
+                );
+            }
+        }
+        events.extend(archive.pending_events);
+        let pending = self.ingest_unsorted_static_events(events).await;
+
+        for (doc_id, doc_archive) in archive.docs {
+            let Some(doc) = self.get_document(doc_id).await else {
+                continue;
+            };
+            let mut locked_doc = doc.lock().await;
+            locked_doc.content_heads.extend(doc_archive.content_heads);
+            locked_doc.content_state.extend(doc_archive.content_state);
+            if let (Ok(cgka), Some(archived)) = (locked_doc.cgka_mut(), &doc_archive.cgka) {
+                cgka.owner_sks_mut().extend(archived.owner_sks());
+            }
+        }
+
+        Ok(pending)
     }
 
     #[instrument(skip_all)]
-- 
2.43.0


From 2b63a42310c8dbaeded6add1f459d87b361a70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 15/38] fix: let replicas that can't derive the key replay and
 merge key-agreement history

Replaying failed with SecretKeyNotFound on replicas that aren't members
(relays, removed members), and Cgka::merge panicked on them.
---
 beekem/src/cgka.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 56ef512..2840b2e 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -566,8 +566,11 @@ impl Cgka {
         .with_new_owner(self.owner_id, self.owner_sks.clone())?;
         rebuilt_cgka.apply_epochs(&epochs)?;
         if rebuilt_cgka.has_pcs_key() {
-            let pcs_key = rebuilt_cgka.pcs_key_from_tree_root()?;
-            rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            // Replicas that are not (or no longer) members can't derive the key,
+            // but must still be able to follow the history.
+            if let Ok(pcs_key) = rebuilt_cgka.pcs_key_from_tree_root() {
+                rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            }
         }
         Ok(rebuilt_cgka)
     }
-- 
2.43.0


From 6cd847abe5b22d1921e8ab09bb09b61bd8283599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 16/38] fix: drop merged key-agreement heads that the other
 side has built upon

---
 beekem/src/operation.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/beekem/src/operation.rs b/beekem/src/operation.rs
index 2648ba9..c8bed68 100644
--- a/beekem/src/operation.rs
+++ b/beekem/src/operation.rs
@@ -163,6 +163,22 @@ impl Merge for CgkaOperationGraph {
             .extend(fork.cgka_ops_predecessors);
         self.cgka_op_heads.extend(fork.cgka_op_heads);
         self.add_heads.extend(fork.add_heads);
+        // A head on one side may have been built upon on the other.
+        for preds in self.cgka_ops_predecessors.values() {
+            for pred in preds {
+                self.cgka_op_heads.remove(pred);
+            }
+        }
+        for op in self.cgka_ops.values() {
+            if let CgkaOperation::Add {
+                add_predecessors, ..
+            } = &op.payload
+            {
+                for pred in add_predecessors {
+                    self.add_heads.remove(pred);
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 674deb9f1a06e9525727c34476c9e9108e521042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 17/38] fix: look up the member after applying pending
 key-agreement operations

Membership changes that were received concurrently are only applied on
replay: adding or removing looked at the tree before that.
---
 beekem/src/cgka.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 2840b2e..f5b640e 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -242,12 +242,12 @@ impl Cgka {
         pk: ShareKey,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         let leaf_index = self.tree.push_leaf(id, pk.into());
         let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
         let add_predecessors = Vec::from_iter(self.ops_graph.add_heads.iter().cloned());
@@ -285,12 +285,12 @@ impl Cgka {
         id: MemberId,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if !self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if !self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         if self.group_size() == 1 {
             return Err(CgkaError::RemoveLastMember);
         }
-- 
2.43.0


From 66dfa96aa1d9c6b570ebb96fc19cbfe66fd8e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 18/38] fix: apply concurrent additions and removals of the
 same member, and of each other

Concurrent removals of the same member (or of each other by the last two) left
the replica unable to replay its history, concurrent additions of the same
member left it with two leaves, and a leaf freed by a removal and taken by a
concurrent addition was blanked.
---
 beekem/src/cgka.rs | 17 +++++++++++++----
 beekem/src/tree.rs | 10 +++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index f5b640e..984d9af 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -419,11 +419,17 @@ impl Cgka {
             return Ok(());
         }
         match op.payload {
+            // A concurrent operation may already have added or removed this member,
+            // or removed all others.
             CgkaOperation::Add { added_id, pk, .. } => {
-                self.tree.push_leaf(added_id, pk.into());
+                if !self.tree.contains_id(&added_id) {
+                    self.tree.push_leaf(added_id, pk.into());
+                }
             }
             CgkaOperation::Remove { id, .. } => {
-                self.tree.remove_id(id)?;
+                if self.tree.contains_id(&id) && self.group_size() > 1 {
+                    self.tree.remove_id(id)?;
+                }
             }
             CgkaOperation::Update { ref new_path, .. } => {
                 self.tree.apply_path(new_path);
@@ -462,8 +468,11 @@ impl Cgka {
                         CgkaOperation::Add { added_id, .. } => {
                             added_ids.insert(added_id);
                         }
-                        CgkaOperation::Remove { id, leaf_idx, .. } => {
-                            removed_ids.insert((id, leaf_idx));
+                        CgkaOperation::Remove { id, .. } => {
+                            // The leaf may have moved since the remover saw it.
+                            if let Ok(leaf_idx) = self.tree.leaf_index_for_id(id) {
+                                removed_ids.insert((id, leaf_idx.u32()));
+                            }
                         }
                         _ => {}
                     }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index f5c71f5..c762359 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -112,13 +112,13 @@ impl BeeKem {
     ) {
         let mut leaves_to_sort = Vec::new();
         for (id, idx) in removed_ids {
-            added_ids.remove(&id);
-            let leaf_idx = LeafNodeIndex::new(idx);
-            debug_assert!(self.leaf(leaf_idx).is_none());
+            if !self.contains_id(&id) {
+                added_ids.remove(&id);
+            }
             // We should have already removed this id during merge, but concurrent
             // updates at other leaves with intersecting paths must be overridden by
-            // this remove.
-            self.blank_leaf_and_path(leaf_idx);
+            // this remove. The leaf itself may have been taken by a concurrent add.
+            self.blank_path(treemath::parent(LeafNodeIndex::new(idx).into()));
         }
         while !added_ids.is_empty() && self.next_leaf_idx.u32() > 0 {
             let leaf_idx = self.next_leaf_idx - 1;
-- 
2.43.0


From 9b2cab1a85ae6e4cd1d98378a7664654d7c08c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 19/38] fix: encrypt to a sibling leaf that has conflicting
 keys instead of panicking

---
 beekem/src/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index c762359..20a25fa 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -459,7 +459,9 @@ impl BeeKem {
             for idx in sibling_resolution {
                 let next_pk = match self.node_key_for_index(idx)? {
                     NodeKey::ShareKey(share_key) => share_key,
-                    _ => panic!("Sibling resolution nodes should have exactly one ShareKey"),
+                    // Inner nodes with conflicts are not part of a resolution, but a
+                    // leaf can have conflicts, if its owner updated it concurrently.
+                    NodeKey::ConflictKeys(keys) => keys.first,
                 };
                 let encrypted_sk = crate::encrypted::encrypt_secret(
                     self.doc_id.as_bytes(),
-- 
2.43.0


From 2e535a056d001fc128506ed908e01886790d04aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 20/38] fix: keep the versions of a secret store sorted when
 merging

Replicas that received concurrent updates in different orders otherwise hold
different trees.
---
 beekem/src/secret_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beekem/src/secret_store.rs b/beekem/src/secret_store.rs
index a319cbf..dfae96d 100644
--- a/beekem/src/secret_store.rs
+++ b/beekem/src/secret_store.rs
@@ -86,6 +86,7 @@ impl SecretStore {
     pub fn merge(&mut self, other: &SecretStore, removed_keys: &Set<ShareKey>) {
         self.remove_keys_from(removed_keys);
         self.versions.append(&mut other.versions.clone());
+        self.versions.sort();
     }
 
     fn remove_keys_from(&mut self, removed_keys: &Set<ShareKey>) {
-- 
2.43.0


From c9e75039c05d08a46785930881d939eb560f44bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 21/38] fix: tell delegations with equal content but different
 issuers apart when updating heads

---
 keyhive_core/src/principal/group/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 23b9fc9..43a12dc 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -184,11 +184,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         for (head_digest, head) in self.delegation_heads.clone().iter() {
-            if !delegation.payload.is_ancestor_of(head) {
+            if !head.payload.is_descendant_of(&delegation) {
                 self.delegation_heads.insert(delegation.dupe());
             }
 
-            if head.payload.is_ancestor_of(&delegation) {
+            if delegation.payload.is_descendant_of(head) {
                 self.delegation_heads.remove_by_hash(head_digest);
             }
         }
-- 
2.43.0


From 60ac7bd09319da14fe3dace0b6187bab417a3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 22/38] fix: offer the revocations of nested groups and the
 heads of nested documents

The traversal that collects the membership operations for a peer followed the
delegation heads of a group that is a member of another one, but not its
revocation heads, and neither for documents, so a peer that applied what it was
offered saw revoked members of nested groups. The computation for a single
agent and for all agents now share the traversal.
---
 keyhive_core/src/keyhive.rs                   | 44 +------------------
 .../principal/group/membership_operation.rs   | 32 +++++++-------
 2 files changed, 18 insertions(+), 58 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 50a7313..fddfff1 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -922,9 +922,6 @@ impl<
         &self,
         agent: &Agent<F, S, T, L>,
     ) -> HashMap<Digest<MembershipOperation<F, S, T, L>>, MembershipOperation<F, S, T, L>> {
-        let mut ops = HashMap::new();
-        let mut visited_hashes = HashSet::new();
-
         #[allow(clippy::type_complexity)]
         let mut heads: Vec<(
             Digest<MembershipOperation<F, S, T, L>>,
@@ -955,46 +952,7 @@ impl<
             }
         }
 
-        while let Some((hash, op)) = heads.pop() {
-            if visited_hashes.contains(&hash) {
-                continue;
-            }
-
-            visited_hashes.insert(hash);
-            ops.insert(hash, op.clone());
-
-            match op {
-                MembershipOperation::Delegation(dlg) => {
-                    if let Some(proof) = &dlg.payload.proof {
-                        heads.push((Digest::hash(proof.as_ref()).coerce(), proof.dupe().into()));
-                    }
-
-                    for rev in dlg.payload.after_revocations.iter() {
-                        heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
-                    }
-
-                    // If this delegation is to a group, include the group's delegation heads
-                    if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                        for dlg in group.lock().await.delegation_heads().values() {
-                            let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                            if !visited_hashes.contains(&dlg_hash) {
-                                heads.push((dlg_hash, dlg.dupe().into()));
-                            }
-                        }
-                    }
-                }
-                MembershipOperation::Revocation(rev) => {
-                    if let Some(proof) = &rev.payload.proof {
-                        heads.push((Digest::hash(proof.as_ref()).coerce(), proof.dupe().into()));
-                    }
-
-                    let r = rev.payload.revoke.dupe();
-                    heads.push((Digest::hash(r.as_ref()).coerce(), r.into()));
-                }
-            }
-        }
-
-        ops
+        bfs_membership_ops(heads).await
     }
 
     /// Compute membership ops for all agents in a single pass.
diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index 017a689..4ce2427 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -596,9 +596,8 @@ pub fn collect_membership_heads<
 /// Enqueue BFS edges from a single [`MembershipOperation`].
 ///
 /// For delegations, follows the proof chain and any `after_revocations`.
-/// When `follow_group_heads` is true, also enqueues the group delegate's
-/// own delegation heads (used during full BFS but not when extending from
-/// a single revocation).
+/// When the delegate is a group or document, also enqueues the delegate's own
+/// delegation and revocation heads.
 ///
 /// For revocations, follows the proof and revoke chains.
 async fn push_membership_edges<
@@ -610,7 +609,6 @@ async fn push_membership_edges<
     op: &MembershipOperation<F, S, T, L>,
     heads: &mut Vec<MembershipOpEntry<F, S, T, L>>,
     visited: &HashSet<Digest<MembershipOperation<F, S, T, L>>>,
-    follow_group_heads: bool,
 ) {
     match op {
         MembershipOperation::Delegation(dlg) => {
@@ -620,13 +618,17 @@ async fn push_membership_edges<
             for rev in dlg.payload.after_revocations.iter() {
                 heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
             }
-            if follow_group_heads {
-                if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                    for dlg in group.lock().await.delegation_heads().values() {
-                        let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                        if !visited.contains(&dlg_hash) {
-                            heads.push((dlg_hash, dlg.dupe().into()));
-                        }
+            if let Some(membered) = dlg.payload.delegate.as_membered() {
+                for dlg in membered.delegation_heads().await.values() {
+                    let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
+                    if !visited.contains(&dlg_hash) {
+                        heads.push((dlg_hash, dlg.dupe().into()));
+                    }
+                }
+                for rev in membered.revocation_heads().await.values() {
+                    let rev_hash = Digest::hash(rev.as_ref()).coerce();
+                    if !visited.contains(&rev_hash) {
+                        heads.push((rev_hash, rev.dupe().into()));
                     }
                 }
             }
@@ -642,8 +644,8 @@ async fn push_membership_edges<
 }
 
 /// Walk all [`MembershipOperation`]s reachable from the given heads via BFS,
-/// following proof chains, revoke chains, and (for delegations to groups) the
-/// group's own delegation heads. Returns a map keyed by digest.
+/// following proof chains, revoke chains, and (for delegations to groups and
+/// documents) the delegate's own heads. Returns a map keyed by digest.
 pub async fn bfs_membership_ops<
     F: FutureForm,
     S: AsyncSigner<F>,
@@ -660,7 +662,7 @@ pub async fn bfs_membership_ops<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, &visited, true).await;
+        push_membership_edges(&op, &mut heads, &visited).await;
         ops.insert(hash, op);
     }
 
@@ -693,7 +695,7 @@ pub async fn bfs_extend_from_revocation<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, visited, false).await;
+        push_membership_edges(&op, &mut heads, visited).await;
         all_ops.entry(hash).or_insert(op);
     }
 }
-- 
2.43.0


From b8f1ea339edd24ae86873f72d98c694e843b5537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 23/38] fix: offer an agent the same revocations alone and in
 bulk

Revocations of a group are part of what its members are offered by the
computation for all agents, because they share the group's source, but not by
the computation for one agent, so whether a member learned that its group was
removed depended on which one was used.
---
 keyhive_core/src/keyhive.rs | 41 ++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index fddfff1..9375885 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -928,7 +928,15 @@ impl<
             MembershipOperation<F, S, T, L>,
         )> = Vec::new();
 
-        for (mem_rc, _max_acces) in self.membered_reachable_by_agent(agent).await.values() {
+        let mut agent_ids = vec![agent.agent_id()];
+        let mut sources: Vec<Membered<F, S, T, L>> = self
+            .membered_reachable_by_agent(agent)
+            .await
+            .into_values()
+            .map(|(membered, _max_access)| membered)
+            .collect();
+        sources.extend(agent.as_membered());
+        for mem_rc in sources {
             for (hash, dlg_head) in mem_rc.delegation_heads().await.iter() {
                 heads.push((hash.coerce(), dlg_head.dupe().into()));
             }
@@ -936,19 +944,24 @@ impl<
             for (hash, rev_head) in mem_rc.revocation_heads().await.iter() {
                 heads.push((hash.coerce(), rev_head.dupe().into()));
             }
+
+            agent_ids.push(mem_rc.agent_id());
         }
 
-        // Include any revocations for this agent that were missed
-        if let Some(agent_revocations) = self
-            .revocations
-            .lock()
-            .await
-            .get_revocations_for_agent(&agent.agent_id())
-        {
-            for rev in agent_revocations {
-                let hash: Digest<MembershipOperation<F, S, T, L>> =
-                    Digest::hash(rev.as_ref()).coerce();
-                heads.push((hash, rev.into()));
+        // Include any revocations for this agent, or for a group or document
+        // it reaches others through, that were missed
+        for agent_id in agent_ids {
+            if let Some(agent_revocations) = self
+                .revocations
+                .lock()
+                .await
+                .get_revocations_for_agent(&agent_id)
+            {
+                for rev in agent_revocations {
+                    let hash: Digest<MembershipOperation<F, S, T, L>> =
+                        Digest::hash(rev.as_ref()).coerce();
+                    heads.push((hash, rev.into()));
+                }
             }
         }
 
@@ -987,6 +1000,7 @@ impl<
             let source_id: Identifier = group_id.into();
             ops.insert(source_id, bfs_membership_ops(heads).await);
 
+            index.entry(source_id).or_default().insert(source_id);
             for agent_id in transitive.keys() {
                 index.entry(*agent_id).or_default().insert(source_id);
             }
@@ -1006,6 +1020,7 @@ impl<
             let source_id: Identifier = doc_id.into();
             ops.insert(source_id, bfs_membership_ops(heads).await);
 
+            index.entry(source_id).or_default().insert(source_id);
             for agent_id in transitive.keys() {
                 index.entry(*agent_id).or_default().insert(source_id);
             }
@@ -1013,6 +1028,8 @@ impl<
 
         // Phase 3: Include agent-specific revocations that may not be reachable
         // from group/doc heads. These go under the agent's own identifier as source.
+        // An agent that is itself a group or document has its own source, so that its
+        // members learn of the revocations too.
         // NOTE: We must include revocations even for agents no longer in the index
         // (i.e., fully revoked agents), so that those revocation events can be
         // synced to the revoked peer.
-- 
2.43.0


From e036276386ab8e6dda1a7e1a605b9b93505c83f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:09 +0000
Subject: [PATCH 24/38] fix: offer the prekeys of former members that offered
 operations mention

Membership operations name people who are no longer members. A peer that has
never met them can't apply those operations, nor anything that depends on
them, because it was not offered their prekey operations.
---
 keyhive_core/src/keyhive.rs                   | 31 +++++++++++++++++++
 .../principal/group/membership_operation.rs   | 10 ++++++
 2 files changed, 41 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 9375885..949ddb9 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1131,6 +1131,14 @@ impl<
             }
         }
 
+        // Former members too: the operations about them can't be applied otherwise
+        for op in self.membership_ops_for_agent(agent).await.values() {
+            let delegate = op.delegate();
+            if !map.contains_key(&delegate.id()) {
+                add_many_keys(&mut map, delegate.id(), delegate.key_ops().await);
+            }
+        }
+
         map.into_iter()
             .map(|(id, keys)| (id, KeyOp::topsort(&keys)))
             .collect()
@@ -1233,6 +1241,20 @@ impl<
             }
         }
 
+        // Include former members: the operations about them can't be applied otherwise
+        let membership = self.membership_ops_for_all_agents().await;
+        let mut mentioned: HashMap<Identifier, HashSet<Identifier>> = HashMap::new();
+        for (source_id, source_ops) in &membership.ops {
+            let delegate_ids = mentioned.entry(*source_id).or_default();
+            for op in source_ops.values() {
+                let delegate = op.delegate();
+                delegate_ids.insert(delegate.id());
+                if let Entry::Vacant(e) = key_ops_cache.entry(delegate.id()) {
+                    e.insert(delegate.key_ops().await);
+                }
+            }
+        }
+
         let ops: HashMap<Identifier, Vec<Arc<KeyOp>>> = key_ops_cache
             .iter()
             .map(|(id, ca_map)| (*id, KeyOp::topsort(ca_map)))
@@ -1274,6 +1296,15 @@ impl<
             }
         }
 
+        for (agent_id, source_ids) in &membership.index {
+            let entry = index.entry(*agent_id).or_default();
+            entry.insert(active_id);
+            entry.insert(*agent_id);
+            for source_id in source_ids {
+                entry.extend(mentioned.get(source_id).into_iter().flatten());
+            }
+        }
+
         AllReachablePrekeyOps { ops, index }
     }
 
diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index 4ce2427..f2f346c 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -125,6 +125,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 
     /// Get the memoized digest for this operation.
+    /// The agent that is added or revoked.
+    pub fn delegate(&self) -> &Agent<F, S, T, L> {
+        match self {
+            MembershipOperation::Delegation(delegation) => &delegation.payload.delegate,
+            MembershipOperation::Revocation(revocation) => {
+                &revocation.payload.revoke.payload.delegate
+            }
+        }
+    }
+
     pub fn digest(&self) -> Digest<MembershipOperation<F, S, T, L>> {
         match self {
             MembershipOperation::Delegation(delegation) => delegation.digest().coerce(),
-- 
2.43.0


From 28ed544528eee7a3135e6946fa18b78de98f13ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:40 +0000
Subject: [PATCH 25/38] fix: keep a document's key agreement to its readers

Adding an agent gave the document key to everyone in the agent's groups,
including relay-only members, and to the members of a group that itself only
relays the document; generating a document did the same for its parents.
Revoking compared against everybody still reachable instead of those that can
still read, and left the dependants of the revoked member and the readers of
documents nested in other documents alone. Looking up individuals through a
document's members also deadlocked when the document was among them. The
readers before and after the change now decide who is added and removed.
---
 keyhive_core/src/keyhive.rs            | 143 ++++++++-----------------
 keyhive_core/src/principal/agent.rs    |   8 ++
 keyhive_core/src/principal/document.rs |  71 ++++++------
 keyhive_core/src/principal/group.rs    |  32 +++---
 4 files changed, 113 insertions(+), 141 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 949ddb9..adcea38 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -489,52 +489,14 @@ impl<
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>], // TODO make this automatic
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let update = match resource {
-            Membered::Group(group_id, group) => {
-                let mut update = group
+        let other_docs = self.docs_other_than(resource).await;
+        let mut update = match resource {
+            Membered::Group(_, group) => {
+                group
                     .lock()
                     .await
                     .add_member(to_add, can, &signer, other_relevant_docs)
-                    .await?;
-
-                // Propagate CGKA adds to docs that contain this group.
-                // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-                // (possibly with a reverse index lookup).
-                if can.is_reader() {
-                    let group_identifier: Identifier = (*group_id).into();
-                    let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                    for doc in &docs {
-                        let (contains_group, doc_id) = {
-                            let locked = doc.lock().await;
-                            (
-                                locked
-                                    .transitive_members()
-                                    .await
-                                    .contains_key(&group_identifier),
-                                locked.doc_id(),
-                            )
-                        };
-                        if !contains_group {
-                            continue;
-                        }
-                        // Document lock is intentionally dropped before `pick_individual_prekeys`,
-                        // which may lock groups (walking group members to find
-                        // individuals).
-                        let prekeys = update
-                            .delegation
-                            .payload
-                            .delegate
-                            .pick_individual_prekeys(doc_id)
-                            .await;
-                        let mut locked_doc = doc.lock().await;
-                        let ops = locked_doc
-                            .add_cgka_members_from_prekeys(&prekeys, &signer)
-                            .await?;
-                        update.cgka_ops.extend(ops);
-                    }
-                }
-
-                update
+                    .await?
             }
             Membered::Document(_, doc) => {
                 let mut locked = doc.lock().await;
@@ -544,6 +506,15 @@ impl<
             }
         };
 
+        // Propagate CGKA changes to docs that contain this group or document.
+        for (doc, readers_before) in other_docs {
+            let mut locked_doc = doc.lock().await;
+            let ops = locked_doc
+                .update_cgka_readers(&readers_before, &signer)
+                .await?;
+            update.cgka_ops.extend(ops);
+        }
+
         for cgka_op in &update.cgka_ops {
             self.event_listener
                 .on_cgka_op(&Arc::new(cgka_op.clone()))
@@ -569,27 +540,7 @@ impl<
 
         let signer = { self.active.lock().await.signer.clone() };
 
-        // When revoking from a group, collect the revoked member's individual
-        // IDs before the revocation removes them from the members map.
-        let revoked_individual_ids: HashSet<IndividualId> = match resource {
-            Membered::Group(_, group) => {
-                let delegates: Vec<Agent<F, S, T, L>> = {
-                    let locked = group.lock().await;
-                    locked
-                        .members()
-                        .get(&to_revoke)
-                        .into_iter()
-                        .flat_map(|ds| ds.iter().map(|d| d.payload().delegate.dupe()))
-                        .collect()
-                };
-                let mut ids = HashSet::new();
-                for d in &delegates {
-                    ids.extend(d.individual_ids().await);
-                }
-                ids
-            }
-            _ => HashSet::new(),
-        };
+        let other_docs = self.docs_other_than(resource).await;
 
         let mut update = resource
             .revoke_member(
@@ -600,38 +551,14 @@ impl<
             )
             .await?;
 
-        // Propagate CGKA removals to docs that contain this group.
-        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-        // (possibly with a reverse index lookup).
-        if let Membered::Group(group_id, _) = resource {
-            if !revoked_individual_ids.is_empty() {
-                let group_identifier: Identifier = (*group_id).into();
-                let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                for doc in &docs {
-                    let transitive = {
-                        let locked = doc.lock().await;
-                        locked.transitive_members().await
-                    };
-                    if !transitive.contains_key(&group_identifier) {
-                        continue;
-                    }
-                    let still_reachable: HashSet<IndividualId> = transitive
-                        .into_iter()
-                        .filter_map(|(_, (agent, _))| match agent {
-                            Agent::Individual(id, _) | Agent::Active(id, _) => Some(id),
-                            _ => None,
-                        })
-                        .collect();
-                    let mut locked_doc = doc.lock().await;
-                    for &id in &revoked_individual_ids {
-                        if still_reachable.contains(&id) {
-                            continue;
-                        }
-                        if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
-                            update.cgka_ops.push(op);
-                        }
-                    }
-                }
+        // Propagate CGKA changes to docs that contain this group or document.
+        for (doc, readers_before) in other_docs {
+            let mut locked_doc = doc.lock().await;
+            if let Ok(ops) = locked_doc
+                .update_cgka_readers(&readers_before, &signer)
+                .await
+            {
+                update.cgka_ops.extend(ops);
             }
         }
 
@@ -644,6 +571,30 @@ impl<
         Ok(update)
     }
 
+    /// The documents with a CGKA, apart from `resource` itself, and their
+    /// present readers.
+    // TODO: O(# of docs x `transitive_members()`). We should replace this approach
+    // (possibly with a reverse index lookup).
+    #[allow(clippy::type_complexity)]
+    async fn docs_other_than(
+        &self,
+        resource: &Membered<F, S, T, L>,
+    ) -> Vec<(Arc<Mutex<Document<F, S, T, L>>>, HashSet<IndividualId>)> {
+        let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+        let mut others = Vec::new();
+        for doc in docs {
+            let readers = {
+                let locked = doc.lock().await;
+                if locked.agent_id() == resource.agent_id() || locked.cgka().is_err() {
+                    continue;
+                }
+                locked.reader_ids().await
+            };
+            others.push((doc, readers));
+        }
+        others
+    }
+
     /// Encrypt content for a document.
     #[instrument(skip_all)]
     pub async fn try_encrypt_content(
diff --git a/keyhive_core/src/principal/agent.rs b/keyhive_core/src/principal/agent.rs
index e2e71d9..c0d6fa5 100644
--- a/keyhive_core/src/principal/agent.rs
+++ b/keyhive_core/src/principal/agent.rs
@@ -81,6 +81,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
     }
 
+    /// The id, when this agent is an individual.
+    pub fn individual_id(&self) -> Option<IndividualId> {
+        match self {
+            Agent::Active(id, _) | Agent::Individual(id, _) => Some(*id),
+            Agent::Group(_, _) | Agent::Document(_, _) => None,
+        }
+    }
+
     pub async fn individual_ids(&self) -> HashSet<IndividualId> {
         let mut ids = HashSet::new();
         let mut seen = HashSet::new();
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 6f2678b..00117dd 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -248,29 +248,50 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
         after_content.insert(self.doc_id(), self.content_state.iter().cloned().collect());
 
+        let readers_before = self.reader_ids().await;
         let mut update = self
             .group
             .add_member_with_manual_content(member_to_add.dupe(), can, signer, after_content)
             .await?;
 
-        if can.is_reader() {
-            // Group::add_member_with_manual_content adds the member to the CGKA for
-            // transitive document members of the group, but not to the group itself
-            // (because the group might not be a document), so we add the member to
-            // the group here and add any extra resulting cgka ops to the update.
-            let prekeys = update
-                .delegation
-                .payload
-                .delegate
-                .pick_individual_prekeys(self.doc_id())
-                .await;
-            let cgka_ops_for_this_doc =
-                self.add_cgka_members_from_prekeys(&prekeys, signer).await?;
-            update.cgka_ops.extend(cgka_ops_for_this_doc);
-        }
+        let cgka_ops_for_this_doc = self.update_cgka_readers(&readers_before, signer).await?;
+        update.cgka_ops.extend(cgka_ops_for_this_doc);
         Ok(update)
     }
 
+    /// The individuals with at least read access, directly or through groups
+    /// and other documents.
+    pub(crate) async fn reader_ids(&self) -> HashSet<IndividualId> {
+        self.group.readers().await.into_keys().collect()
+    }
+
+    /// Bring this document's [`Cgka`] in line with a change of its members:
+    /// add the individuals that became readers, and remove those that no
+    /// longer are.
+    #[instrument(skip_all)]
+    pub(crate) async fn update_cgka_readers(
+        &mut self,
+        readers_before: &HashSet<IndividualId>,
+        signer: &S,
+    ) -> Result<Vec<Signed<CgkaOperation>>, CgkaError> {
+        let readers_after = self.reader_ids().await;
+        if readers_after == *readers_before {
+            return Ok(Vec::new());
+        }
+
+        let mut prekeys = self.group.pick_individual_prekeys(self.doc_id()).await;
+        prekeys.retain(|id, _prekey| !readers_before.contains(id));
+        let mut ops = self.add_cgka_members_from_prekeys(&prekeys, signer).await?;
+
+        // FIXME: We need to check if this has revoked the last member in our group.
+        for id in readers_before.difference(&readers_after) {
+            if let Some(op) = self.remove_cgka_member(*id, signer).await? {
+                ops.push(op);
+            }
+        }
+        Ok(ops)
+    }
+
     /// Add individuals to this document's [`Cgka`] from pre-computed prekeys.
     ///
     /// Prekeys must be computed before locking the document to avoid
@@ -298,13 +319,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_other_doc_content: &mut BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
-        // Collect individual IDs from the member being revoked before the
-        // group revocation removes them from the members map.
-        let mut ids_to_remove = HashSet::new();
-        for d in self.group.members.get(&member_id).into_iter().flatten() {
-            ids_to_remove.extend(d.payload().delegate.individual_ids().await);
-        }
-
+        let readers_before = self.reader_ids().await;
         let RevokeMemberUpdate {
             revocations,
             redelegations,
@@ -319,18 +334,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             )
             .await?;
 
-        // After revocation, check which individuals are still reachable via
-        // remaining members. Only remove those that are no longer reachable.
-        let still_reachable = self.group.individual_ids().await;
-        ids_to_remove.retain(|id| !still_reachable.contains(id));
-
-        // FIXME: We need to check if this has revoked the last member in our group.
         let mut ops = cgka_ops;
-        for id in ids_to_remove {
-            if let Some(op) = self.cgka_mut()?.remove(id, signer).await? {
-                ops.push(op);
-            }
-        }
+        ops.extend(self.update_cgka_readers(&readers_before, signer).await?);
         Ok(RevokeMemberUpdate {
             revocations,
             redelegations,
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index fab6000..c6a0f25 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -234,27 +234,35 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 
     pub async fn individual_ids(&self) -> HashSet<IndividualId> {
-        let mut ids = HashSet::new();
-        for delegations in self.members.values() {
-            let more_ids = delegations[0].payload().delegate.individual_ids().await;
-            ids.extend(more_ids.iter());
-        }
-        ids
+        self.transitive_members()
+            .await
+            .into_values()
+            .filter_map(|(agent, _access)| agent.individual_id())
+            .collect()
+    }
+
+    /// The individuals with at least read access, directly or through other
+    /// groups and documents.
+    pub async fn readers(&self) -> HashMap<IndividualId, Agent<F, S, T, L>> {
+        self.transitive_members()
+            .await
+            .into_values()
+            .filter(|(_agent, access)| access.is_reader())
+            .filter_map(|(agent, _access)| agent.individual_id().map(|id| (id, agent)))
+            .collect()
     }
 
+    /// The prekeys by which the readers are added to a document's CGKA.
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
     ) -> HashMap<IndividualId, ShareKey> {
         let mut prekeys = HashMap::new();
-        let public_id = crate::principal::public::Public.id();
-        for (id, (agent, _access)) in self.transitive_members().await.iter() {
+        let public_id = IndividualId(crate::principal::public::Public.id());
+        for (id, agent) in self.readers().await.iter() {
             // Public must always be added with its single well-known key.
             if *id == public_id {
-                prekeys.insert(
-                    IndividualId(public_id),
-                    crate::principal::public::Public.share_key(),
-                );
+                prekeys.insert(public_id, crate::principal::public::Public.share_key());
             } else {
                 prekeys.extend(agent.pick_individual_prekeys(doc_id).await.iter());
             }
-- 
2.43.0


From bfc97f296ef729d4a65975bdd62e21986ffabc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 26/38] fix: act through an intermediary only within the
 intermediary's own access

When adding or revoking on behalf of a group the signer belongs to, the first
membership with enough access inside that group was used as proof even when the
group itself had less, so the operation was built and then refused (after
earlier revocations of the same call were applied) although another
intermediary would have done.
---
 keyhive_core/src/principal/group.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index c6a0f25..bbef947 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -480,6 +480,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 if let Some(m) = dlg.payload.delegate.as_membered() {
                     let sub_members = m.transitive_members_outside(self.id()).await;
                     if let Some((_, sub_access)) = sub_members.get(&signer_id) {
+                        // No more than the intermediary itself has
+                        let sub_access = sub_access.min(&dlg.payload.can);
                         if *sub_access >= can {
                             best_proof = Some(dlg.dupe());
                             break;
@@ -640,6 +642,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if let Some(m) = dlg.payload.delegate.as_membered() {
                             let sub_members = m.transitive_members_outside(self.id()).await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
+                                // No more than the intermediary itself has
+                                let sub_access = sub_access.min(&dlg.payload.can);
                                 if *sub_access >= to_revoke.payload.can {
                                     let r = self
                                         .build_revocation(
-- 
2.43.0


From bcf59d2fbf2fd9f57a3c3134bb5ada2613059ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 27/38] fix: let a removed member be added again on the same
 terms

Signing is deterministic, so a delegation equal to one that was revoked before
is that very delegation. Adding a member again with the access it had before
reported success but had no effect once another operation had superseded the
revocation as a head. The new delegation now states the revocations of earlier
delegations to the same agent.
---
 keyhive_core/src/principal/group.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index bbef947..b404b32 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -505,13 +505,26 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         };
 
+        let mut after_revocations: Vec<_> =
+            self.state.revocation_heads.values().duped().collect();
+
+        // Re-adding someone on the same terms as before must not reproduce the
+        // delegation that was revoked.
+        for revocation in self.active_revocations.values() {
+            if revocation.payload.revoke.payload.delegate.id() == member_to_add.id()
+                && !after_revocations.contains(revocation)
+            {
+                after_revocations.push(revocation.dupe());
+            }
+        }
+
         let delegation = keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(
             signer,
             Delegation {
                 delegate: member_to_add,
                 can,
                 proof,
-                after_revocations: self.state.revocation_heads.values().duped().collect(),
+                after_revocations,
                 after_content,
             },
         )
-- 
2.43.0


From c7437231668f648da1e865fb46c0acad51cdd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 28/38] fix: don't measure the path of a leaf that a smaller
 tree does not have

---
 beekem/src/tree.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 20a25fa..994c5c0 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -573,8 +573,10 @@ impl BeeKem {
         let leaf_idx = self
             .leaf_index_for_id(new_path.leaf_id)
             .expect("Id should be present");
-        new_path.path.len() == self.path_length_for(LeafNodeIndex::new(new_path.leaf_idx))
-            && leaf_idx.u32() == new_path.leaf_idx
+        // The path's own leaf may not exist in this tree, so only measure the path
+        // of the leaf that does.
+        leaf_idx.u32() == new_path.leaf_idx
+            && new_path.path.len() == self.path_length_for(*leaf_idx)
     }
 
     /// Growing the tree will add a new root and a new subtree, all blank.
-- 
2.43.0


From 873407f3e8236ec30113ba0cabefc2d1eca90caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 29/38] fix: blank the ancestors of a leaf whose concurrent
 update no longer fits the tree

---
 beekem/src/cgka.rs | 11 +++++++++--
 beekem/src/tree.rs |  6 ++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 984d9af..891e9fb 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -460,7 +460,7 @@ impl Cgka {
                 }
 
                 // An epoch with at least one membership change requires blanking
-                // removed paths and sorting added leaves after all ops are applied.
+                // removed and outdated paths and sorting added leaves after all ops are applied.
                 let mut added_ids = Set::new();
                 let mut removed_ids = Set::new();
                 for op in epoch.iter() {
@@ -474,7 +474,14 @@ impl Cgka {
                                 removed_ids.insert((id, leaf_idx.u32()));
                             }
                         }
-                        _ => {}
+                        CgkaOperation::Update { ref new_path, .. } => {
+                            // Only the leaf can be updated when its path no longer fits.
+                            // Concurrent updates may have encrypted their secrets for the
+                            // keys that it replaced, so their common ancestors must go, too.
+                            if let Some(leaf_idx) = self.tree.leaf_with_outdated_path(new_path) {
+                                removed_ids.insert((new_path.leaf_id, leaf_idx.u32()));
+                            }
+                        }
                     }
                     self.apply_operation(op.clone())?;
                 }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 994c5c0..640c564 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -579,6 +579,12 @@ impl BeeKem {
             && new_path.path.len() == self.path_length_for(*leaf_idx)
     }
 
+    /// The member's leaf if applying this [`PathChange`] would update only that leaf.
+    pub(crate) fn leaf_with_outdated_path(&self, new_path: &PathChange) -> Option<LeafNodeIndex> {
+        let leaf_idx = *self.leaf_index_for_id(new_path.leaf_id).ok()?;
+        (!self.is_valid_path(new_path)).then_some(leaf_idx)
+    }
+
     /// Growing the tree will add a new root and a new subtree, all blank.
     fn maybe_grow_tree(&mut self, new_count: u32) {
         if self.tree_size >= TreeSize::from_leaf_count(new_count) {
-- 
2.43.0


From d60a08214f87d80f46295b85a206d5054d02bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 30/38] fix: refuse ciphertexts that name an operation other
 than an update

---
 beekem/src/cgka.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 891e9fb..936b9bc 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -545,8 +545,10 @@ impl Cgka {
         &mut self,
         op_hash: &Digest<Signed<CgkaOperation>>,
     ) -> Result<PcsKey, CgkaError> {
-        if !self.ops_graph.contains_op_hash(op_hash) {
-            return Err(CgkaError::UnknownPcsKey);
+        // Only updates introduce a PCS key.
+        match self.ops_graph.cgka_ops.get(op_hash) {
+            Some(op) if matches!(op.payload, CgkaOperation::Update { .. }) => {}
+            _ => return Err(CgkaError::UnknownPcsKey),
         }
         let mut heads = Set::new();
         heads.insert(*op_hash);
-- 
2.43.0


From 21846f9811992008fd039c4fdc6cdb283eaa4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 31/38] fix: remember a document key under the update that
 introduced it

---
 beekem/src/cgka.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 936b9bc..6b46e3b 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -216,9 +216,6 @@ impl Cgka {
     ) -> Result<SymmetricKey, CgkaError> {
         let pcs_key =
             self.pcs_key_from_hashes(&encrypted.pcs_key_hash, &encrypted.pcs_update_op_hash)?;
-        if !self.pcs_keys.contains_key(&encrypted.pcs_key_hash) {
-            self.insert_pcs_key(&pcs_key, encrypted.pcs_update_op_hash);
-        }
         let app_secret = pcs_key.derive_application_secret(
             &encrypted.nonce,
             &encrypted.content_ref,
@@ -532,6 +529,11 @@ impl Cgka {
         if self.has_pcs_key() {
             if let Ok(pcs_key) = self.pcs_key_from_tree_root() {
                 if &Digest::hash(&pcs_key) == pcs_key_hash {
+                    // Record the update that introduced this key (the single head),
+                    // whatever update the ciphertext names.
+                    if let Some(head) = self.ops_graph.cgka_op_heads.iter().next() {
+                        self.insert_pcs_key(&pcs_key, *head);
+                    }
                     return Ok(pcs_key);
                 }
             }
-- 
2.43.0


From 58bac010f7fb77aedc35e65f0aebb04a821ebc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 32/38] fix: keep operations without predecessors in the
 ordered history

---
 beekem/src/operation.rs | 5 +++++
 beekem/src/topsort.rs   | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/beekem/src/operation.rs b/beekem/src/operation.rs
index c8bed68..9f54719 100644
--- a/beekem/src/operation.rs
+++ b/beekem/src/operation.rs
@@ -329,6 +329,11 @@ impl CgkaOperationGraph {
             return Ok(NonEmpty::from_vec(op_hashes).expect("to have at least one op hash"));
         }
 
+        // A head without predecessors is not part of any dependency.
+        for head in heads {
+            dependencies.add_node(*head);
+        }
+
         let mut epoch_heads = Set::new();
         let mut next_epoch: Vec<Arc<Signed<CgkaOperation>>> = Vec::new();
         while !dependencies.is_empty() {
diff --git a/beekem/src/topsort.rs b/beekem/src/topsort.rs
index 7d27c16..9b6ebc3 100644
--- a/beekem/src/topsort.rs
+++ b/beekem/src/topsort.rs
@@ -37,6 +37,12 @@ impl<T: Eq + Hash + Ord + Clone> TopologicalSort<T> {
         self.rdeps.entry(dependency).or_default().insert(dependent);
     }
 
+    /// Ensure `node` is tracked even if it has no dependencies or dependents.
+    pub fn add_node(&mut self, node: T) {
+        self.deps.entry(node.clone()).or_default();
+        self.rdeps.entry(node).or_default();
+    }
+
     /// Returns whether the sort is empty (all nodes have been popped).
     pub fn is_empty(&self) -> bool {
         self.deps.is_empty()
-- 
2.43.0


From 7ec4e3038e9a4991ee67247ab8a34eec58f89436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 33/38] fix: never act from a document's own leaf without its
 secrets

---
 keyhive_core/src/keyhive.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index adcea38..81a4532 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1786,7 +1786,17 @@ impl<
                 return Ok(());
             }
         }
-        if doc.lock().await.merge_cgka_op(signed_op.clone())? {
+        let active_id = { self.active.lock().await.id() };
+        let mut locked_doc = doc.lock().await;
+        let is_init = locked_doc.cgka().is_err();
+        let merged = locked_doc.merge_cgka_op(signed_op.clone())?;
+        if is_init {
+            // The initial operation adds the document itself. We hold none of its
+            // secrets, so must never act from its leaf.
+            locked_doc.reset_cgka_owner(active_id)?;
+        }
+        drop(locked_doc);
+        if merged {
             self.event_listener.on_cgka_op(&signed_op).await;
         }
         Ok(())
-- 
2.43.0


From 9eb4e61adc6599076d08f531adff962ea583247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 34/38] fix: merge everything a fork holds into its original

---
 keyhive_core/src/keyhive.rs | 44 +++++++------------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 81a4532..11b6312 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2568,42 +2568,14 @@ where
     Log<F, S, T>: MembershipListener<F, S, T>,
 {
     async fn merge_async(&self, fork: Self::AsyncForked) {
-        let forked_active = { fork.active.lock().await.clone() };
-        let locked = self.lock().await;
-        locked.active.lock().await.merge_async(forked_active).await;
-
-        {
-            let mut locked_fork_indies = fork.individuals.lock().await;
-            let mut locked_indies = locked.individuals.lock().await;
-            for (id, forked_indie) in locked_fork_indies.drain() {
-                if let Some(og_indie) = locked_indies.get(&id) {
-                    og_indie
-                        .lock()
-                        .await
-                        .merge(forked_indie.lock().await.clone())
-                } else {
-                    locked_indies.insert(id, forked_indie);
-                }
-            }
-        }
-
-        let forked_listener = { fork.event_listener.0.lock().await.clone() };
-        for event in forked_listener.iter() {
-            match event {
-                Event::PrekeysExpanded(_add_op) => {
-                    continue; // NOTE: handled above
-                }
-                Event::PrekeyRotated(_rot_op) => {
-                    continue; // NOTE: handled above
-                }
-                _ => {}
-            }
-
-            locked
-                .receive_static_event(event.clone().into())
-                .await
-                .expect("prechecked events to work");
-        }
+        // The events alone are not enough: the fork may also hold secrets, content heads,
+        // and operations that are still pending.
+        let archive = fork.into_archive().await;
+        self.lock()
+            .await
+            .ingest_archive(archive)
+            .await
+            .expect("local round trip to work");
     }
 }
 
-- 
2.43.0


From 386e1ddbc5e2aa051f7b66c6bf9fa58cd8e0e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 35/38] fix: drop an import that repairs left unused

---
 keyhive_core/src/principal/group.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index b404b32..76b4a64 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -19,7 +19,6 @@ use super::{
     document::{id::DocumentId, AddMemberUpdate, Document, RevokeMemberUpdate},
     identifier::Identifier,
     individual::{id::IndividualId, Individual},
-    membered::Membered,
 };
 use crate::{
     access::Access,
-- 
2.43.0


From 581181004d643406ee0ad868b1dbc9ed196b06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 36/38] fix: order membership operations the same way whichever
 revocation of a delegation is found first

---
 .../principal/group/membership_operation.rs   | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index f2f346c..3a48f0e 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -261,8 +261,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        // revoked delegation signature -> revocation digest
-        let mut revoked_dependencies: HashMap<Key, Digest<MembershipOperation<F, S, T, L>>> =
+        // revoked delegation signature -> revocation digests
+        let mut revoked_dependencies: HashMap<Key, Vec<Digest<MembershipOperation<F, S, T, L>>>> =
             HashMap::new();
 
         let mut explore: Vec<MembershipOperation<F, S, T, L>> = vec![];
@@ -290,7 +290,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             let parent_digests: Vec<_> = parents.iter().map(|p| p.digest()).collect();
 
             if let MembershipOperation::Revocation(r) = &op {
-                revoked_dependencies.insert((*r.payload.revoke.signature()).into(), digest);
+                revoked_dependencies
+                    .entry((*r.payload.revoke.signature()).into())
+                    .or_default()
+                    .push(digest);
             }
 
             all_ops.insert(digest, (op, parent_digests));
@@ -374,7 +377,18 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
             if let MembershipOperation::Delegation(d) = op {
                 if let Some(proof) = &d.payload.proof {
-                    if let Some(revoked_digest) = revoked_dependencies.get(&Key(proof.signature)) {
+                    // The most senior of them if there are several, no matter
+                    // in which order they were found
+                    let revoked_digest =
+                        revoked_dependencies
+                            .get(&Key(proof.signature))
+                            .and_then(|ds| {
+                                ds.iter().min_by_key(|d| {
+                                    (distance_to_root.get(*d).copied().unwrap_or(1), **d)
+                                })
+                            });
+
+                    if let Some(revoked_digest) = revoked_digest {
                         if let Some((revoked_op, _)) = all_ops.get(revoked_digest) {
                             adjacencies
                                 .add_dependency((*digest, op), (*revoked_digest, revoked_op));
-- 
2.43.0


From 545e7e31625228ff26c7cdd2f8f583de4338db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 37/38] fix: don't let ingestions running at the same time
 interleave

---
 keyhive_core/src/keyhive.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 11b6312..9e6d58f 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -119,6 +119,9 @@ pub struct Keyhive<
     /// [`StaticEvent`]s that are still awaiting dependencies.
     pending_events: Arc<Mutex<Vec<Arc<StaticEvent<T>>>>>,
 
+    /// Held while ingesting events, so that ingestions don't interleave.
+    ingestion: Arc<Mutex<()>>,
+
     /// Observer for [`Event`]s. Intended for running live updates.
     event_listener: L,
 
@@ -198,6 +201,7 @@ impl<
             delegations: Arc::new(Mutex::new(DelegationStore::new())),
             revocations: Arc::new(Mutex::new(RevocationStore::new())),
             pending_events: Arc::new(Mutex::new(Vec::new())),
+            ingestion: Arc::new(Mutex::new(())),
             ciphertext_store,
             event_listener,
             csprng: Arc::new(Mutex::new(csprng)),
@@ -2226,6 +2230,7 @@ impl<
             delegations,
             revocations,
             pending_events: Arc::new(Mutex::new(pending_events)),
+            ingestion: Arc::new(Mutex::new(())),
             csprng,
             ciphertext_store,
             event_listener: listener,
@@ -2324,6 +2329,9 @@ impl<
         // FIXME: Some errors might not be recoverable on future attempts
         tracing::debug!("Keyhive::ingest_unsorted_static_events()");
         use std::collections::{HashMap, HashSet};
+        // NOTE concurrent ingestions would replace each other's pending events, and
+        // the groups and documents that they create
+        let _ingesting = self.ingestion.lock().await;
         let mut replayed_pending: HashSet<Digest<StaticEvent<T>>> = HashSet::new();
         for event in self.pending_events.as_ref().lock().await.iter() {
             replayed_pending.insert(Digest::hash(event.as_ref()));
-- 
2.43.0


From 7f2423f804c9fcc41f0e1e4342eaa571de0047eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 38/38] fix: take locks in one order, so that concurrent calls
 don't deadlock

---
 keyhive_core/src/keyhive.rs            | 24 +++++++++++-------------
 keyhive_core/src/principal/document.rs |  3 ++-
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 9e6d58f..a0013ba 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -626,9 +626,9 @@ impl<
     ) -> Result<(EncryptedContentWithUpdate<T>, SymmetricKey), EncryptContentError> {
         let signer = { self.active.lock().await.signer.clone() };
         let (result, application_secret_key) = {
+            let mut locked_doc = doc.lock().await;
             let mut locked_csprng = self.csprng.lock().await;
-            doc.lock()
-                .await
+            locked_doc
                 .try_encrypt_content_keyed(
                     content_ref,
                     content,
@@ -689,21 +689,19 @@ impl<
         doc: Arc<Mutex<Document<F, S, T, L>>>,
     ) -> Result<(Signed<CgkaOperation>, ShareKey, ShareSecretKey), EncryptError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let mut locked_csprng = self.csprng.lock().await;
-        let (op, new_share_key, new_share_secret_key) = doc
-            .lock()
-            .await
-            .pcs_update(&signer, &mut *locked_csprng)
-            .await?;
+        let (op, new_share_key, new_share_secret_key) = {
+            let mut locked_doc = doc.lock().await;
+            let mut locked_csprng = self.csprng.lock().await;
+            locked_doc.pcs_update(&signer, &mut *locked_csprng).await?
+        };
         self.event_listener.on_cgka_op(&Arc::new(op.clone())).await;
         Ok((op, new_share_key, new_share_secret_key))
     }
 
     #[instrument(skip_all)]
     pub async fn reachable_docs(&self) -> BTreeMap<DocumentId, Ability<F, S, T, L>> {
-        let active = self.active.dupe();
-        let locked_active = self.active.lock().await;
-        self.docs_reachable_by_agent(&Agent::Active(locked_active.id(), active))
+        let active_id = { self.active.lock().await.id() };
+        self.docs_reachable_by_agent(&Agent::Active(active_id, self.active.dupe()))
             .await
     }
 
@@ -1761,10 +1759,10 @@ impl<
         let signed_op = Arc::new(signed_op);
         if let CgkaOperation::Add { added_id, pk, .. } = signed_op.payload {
             let added_id: IndividualId = added_id.into();
-            let locked_active = self.active.lock().await;
-            let active_id = locked_active.id();
+            let active_id = { self.active.lock().await.id() };
             if active_id == added_id {
                 let sk = {
+                    let locked_active = self.active.lock().await;
                     let locked_prekeys = locked_active.prekey_pairs.lock().await;
                     *locked_prekeys
                         .get(&pk)
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 00117dd..4b4cc98 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -185,6 +185,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let owner_id = IndividualId(group_vk.into());
         let doc_id = DocumentId(group.id());
         let owner_share_secret_key = ShareSecretKey::generate(&mut *locked_csprng);
+        drop(locked_csprng);
         let owner_share_key = owner_share_secret_key.share_key();
         let group_members = group.pick_individual_prekeys(doc_id).await;
         let other_members: Vec<(IndividualId, ShareKey)> = group_members
@@ -207,7 +208,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 owner_share_key,
                 owner_share_secret_key,
                 signer,
-                &mut *locked_csprng,
+                &mut *csprng.lock().await,
             )
             .await?;
 
-- 
2.43.0

