From 8cbed9732006e45e6c71d1d81cf6872248352ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:39 +0000
Subject: [PATCH 1/7] fix: multisig: deleting a key removes its confirmations
 of pending requests

---
 multisig/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/multisig/src/lib.rs b/multisig/src/lib.rs
index 510bc2c..53946fa 100644
--- a/multisig/src/lib.rs
+++ b/multisig/src/lib.rs
@@ -210,6 +210,14 @@ impl MultiSigContract {
                         self.confirmations.remove(&request_id);
                         self.requests.remove(&request_id);
                     }
+                    // remove confirmations by public_key from the other requests
+                    let request_ids: Vec<u32> = self.requests.keys().collect();
+                    for request_id in request_ids {
+                        let mut confirmations = self.confirmations.get(&request_id).unwrap();
+                        if confirmations.remove(&pk) {
+                            self.confirmations.insert(&request_id, &confirmations);
+                        }
+                    }
                     // remove num_requests_pk entry for public_key
                     self.num_requests_pk.remove(&pk);
                     promise.delete_key(pk)
-- 
2.43.0


From 6290e9adac52cd6fa14a93f0b47109b6ce3ca466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:39 +0000
Subject: [PATCH 2/7] fix: multisig2: deleting a member removes its
 confirmations of pending requests

---
 multisig2/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 052bfab..cf88733 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -369,6 +369,14 @@ impl MultiSigContract {
             self.confirmations.remove(&request_id);
             self.requests.remove(&request_id);
         }
+        // remove confirmations by member from the other requests
+        let request_ids: Vec<u32> = self.requests.keys().collect();
+        for request_id in request_ids {
+            let mut confirmations = self.confirmations.get(&request_id).unwrap();
+            if confirmations.remove(&member.to_string()) {
+                self.confirmations.insert(&request_id, &confirmations);
+            }
+        }
         // remove num_requests_pk entry for member
         self.num_requests_pk.remove(&member.to_string());
         self.members.remove(&member);
-- 
2.43.0


From 0d889076bc1166172ea8da28b06d96b47c7fcd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:40 +0000
Subject: [PATCH 3/7] fix: multisig2: key members may call
 add_request_and_confirm

---
 multisig2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index cf88733..6f396c6 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -20,7 +20,7 @@ const REQUEST_COOLDOWN: u64 = 900_000_000_000;
 const ACTIVE_REQUESTS_LIMIT: u32 = 12;
 
 /// Default set of methods that access key should have.
-const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_and_confirm_request";
+const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_request_and_confirm";
 
 pub type RequestId = u32;
 
-- 
2.43.0


From 2abd8a519faa7417df1ab728f89c2176531c8279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:40 +0000
Subject: [PATCH 4/7] fix: multisig2: the number of confirmations never exceeds
 the number of distinct members

---
 multisig2/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 6f396c6..06e96d7 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -146,10 +146,6 @@ impl MultiSigContract {
     /// @params num_confirmations: k of n signatures required to perform operations.
     #[init]
     pub fn new(members: Vec<MultisigMember>, num_confirmations: u32) -> Self {
-        assert(
-            members.len() >= num_confirmations as usize,
-            "Members list must be equal or larger than number of confirmations",
-        );
         let mut multisig = Self {
             members: UnorderedSet::new(StorageKeys::Members),
             num_confirmations,
@@ -163,6 +159,10 @@ impl MultiSigContract {
         for member in members {
             promise = multisig.add_member(promise, member);
         }
+        assert(
+            multisig.members.len() >= num_confirmations as u64,
+            "Members list must be equal or larger than number of confirmations",
+        );
         multisig
     }
 
@@ -274,6 +274,10 @@ impl MultiSigContract {
                 // the following methods must be a single action
                 MultiSigRequestAction::SetNumConfirmations { num_confirmations } => {
                     self.assert_one_action_only(receiver_id, num_actions);
+                    assert(
+                        self.members.len() >= num_confirmations as u64,
+                        "Number of confirmations must not exceed the number of members",
+                    );
                     self.num_confirmations = num_confirmations;
                     return PromiseOrValue::Value(true);
                 }
-- 
2.43.0


From b4f8a99190f00673f1a577e00bca71ac6e571639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:40 +0000
Subject: [PATCH 5/7] fix: multisig2: a member listed twice does not prevent
 adding the access keys

---
 multisig2/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 06e96d7..a792926 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -344,7 +344,10 @@ impl MultiSigContract {
 
     /// Add member to the list. Adds access key if member is key based.
     fn add_member(&mut self, promise: Promise, member: MultisigMember) -> Promise {
-        self.members.insert(&member.clone().into());
+        if !self.members.insert(&member) {
+            // already a member, and its access key already exists
+            return promise;
+        }
         match member {
             MultisigMember::AccessKey { public_key } => promise.add_access_key(
                 public_key.into(),
-- 
2.43.0


From 88d16803d163b53ab86e07122e40188f90aafc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 6/7] fix: lockup: reject an inconsistent explicit vesting
 schedule at initialization

---
 lockup/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lockup/src/lib.rs b/lockup/src/lib.rs
index 22db413..92c3357 100644
--- a/lockup/src/lib.rs
+++ b/lockup/src/lib.rs
@@ -223,6 +223,7 @@ impl LockupContract {
             }
             Some(VestingScheduleOrHash::VestingHash(hash)) => VestingInformation::VestingHash(hash),
             Some(VestingScheduleOrHash::VestingSchedule(vs)) => {
+                vs.assert_valid();
                 VestingInformation::VestingSchedule(vs)
             }
         };
-- 
2.43.0


From 055b8ee54c40cb1387db47b01f375ea51faf1219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:57 +0000
Subject: [PATCH 7/7] fix: multisig-factory: return the deposit of a failed
 creation

---
 multisig-factory/src/lib.rs | 67 ++++++++++++++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 5 deletions(-)

diff --git a/multisig-factory/src/lib.rs b/multisig-factory/src/lib.rs
index 9fe444f..c8d767d 100644
--- a/multisig-factory/src/lib.rs
+++ b/multisig-factory/src/lib.rs
@@ -1,17 +1,34 @@
 use near_sdk::borsh::{self, BorshDeserialize, BorshSerialize};
-use near_sdk::json_types::Base58PublicKey;
+use near_sdk::json_types::{Base58PublicKey, U128};
 use near_sdk::serde::{Deserialize, Serialize};
 use near_sdk::serde_json::json;
-use near_sdk::{env, near_bindgen, AccountId, Promise};
+use near_sdk::{env, ext_contract, near_bindgen, AccountId, Balance, Promise, PromiseResult};
 
 #[global_allocator]
 static ALLOC: near_sdk::wee_alloc::WeeAlloc<'_> = near_sdk::wee_alloc::WeeAlloc::INIT;
 
 const CODE: &[u8] = include_bytes!("../../multisig2/res/multisig2.wasm");
 
-/// This gas spent on the call & account creation, the rest goes to the `new` call.
+/// There is no deposit balance attached.
+const NO_DEPOSIT: Balance = 0;
+
+/// This gas spent on the call & account creation, the rest (without the callback's) goes to the `new` call.
 const CREATE_CALL_GAS: u64 = 50_000_000_000_000;
 
+/// The gas attached to the callback that refunds the deposit if the creation fails.
+const ON_CREATE_CALLBACK_GAS: u64 = 10_000_000_000_000;
+
+/// External interface for the callbacks to self.
+#[ext_contract(ext_self)]
+pub trait ExtSelf {
+    fn on_multisig_create(
+        &mut self,
+        multisig_account_id: AccountId,
+        attached_deposit: U128,
+        predecessor_account_id: AccountId,
+    ) -> bool;
+}
+
 #[derive(Serialize, Deserialize)]
 #[serde(crate = "near_sdk::serde", untagged)]
 pub enum MultisigMember {
@@ -33,7 +50,7 @@ impl MultisigFactory {
         num_confirmations: u64,
     ) -> Promise {
         let account_id = format!("{}.{}", name, env::current_account_id());
-        Promise::new(account_id)
+        Promise::new(account_id.clone())
             .create_account()
             .deploy_contract(CODE.to_vec())
             .transfer(env::attached_deposit())
@@ -44,7 +61,47 @@ impl MultisigFactory {
                     .as_bytes()
                     .to_vec(),
                 0,
-                env::prepaid_gas() - CREATE_CALL_GAS,
+                env::prepaid_gas() - CREATE_CALL_GAS - ON_CREATE_CALLBACK_GAS,
             )
+            .then(ext_self::on_multisig_create(
+                account_id,
+                env::attached_deposit().into(),
+                env::predecessor_account_id(),
+                &env::current_account_id(),
+                NO_DEPOSIT,
+                ON_CREATE_CALLBACK_GAS,
+            ))
+    }
+
+    /// Callback after a multisig was created.
+    /// Returns `true` if the multisig creation succeeded.
+    /// Otherwise refunds the attached deposit and returns `false`.
+    pub fn on_multisig_create(
+        &mut self,
+        multisig_account_id: AccountId,
+        attached_deposit: U128,
+        predecessor_account_id: AccountId,
+    ) -> bool {
+        assert_eq!(env::predecessor_account_id(), env::current_account_id());
+        assert_eq!(
+            env::promise_results_count(),
+            1,
+            "Contract expected a result on the callback"
+        );
+
+        match env::promise_result(0) {
+            PromiseResult::Successful(_) => true,
+            _ => {
+                env::log(
+                    format!(
+                        "The multisig {} creation has failed. Returning attached deposit of {} to {}",
+                        multisig_account_id, attached_deposit.0, predecessor_account_id
+                    )
+                    .as_bytes(),
+                );
+                Promise::new(predecessor_account_id).transfer(attached_deposit.0);
+                false
+            }
+        }
     }
 }
-- 
2.43.0

