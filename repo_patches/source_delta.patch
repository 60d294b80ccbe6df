From 96587d7ac83974d55fd84bc76c30533ecdb04b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 01/19] fix: snapshot multiple-choice total power at the
 proposal's start height

Ballots are weighed at the proposal's start height, but the total was queried
without a height. Voting modules that answer such a query with the current
value (cw4) then give a total that includes membership changes made earlier in
the same block while ballots do not: quorum is measured against the wrong
total, and when the total shrank, tallies exceed it and voting fails with an
overflow.
---
 contracts/proposal/dao-proposal-multiple/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/proposal/dao-proposal-multiple/src/contract.rs b/contracts/proposal/dao-proposal-multiple/src/contract.rs
index 6fc42f8..7b02ca3 100644
--- a/contracts/proposal/dao-proposal-multiple/src/contract.rs
+++ b/contracts/proposal/dao-proposal-multiple/src/contract.rs
@@ -199,7 +199,7 @@ pub fn execute_propose(
     let checked_multiple_choice_options = choices.into_checked()?.options;
 
     let expiration = config.max_voting_period.after(&env.block);
-    let total_power = get_total_power(deps.as_ref(), &config.dao, None)?;
+    let total_power = get_total_power(deps.as_ref(), &config.dao, Some(env.block.height))?;
 
     let proposal = {
         // Limit mutability to this block.
-- 
2.43.0


From cbdba1c1f99546ecad07c22978cfe2b703565a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 02/19] fix: snapshot condorcet total power at the proposal's
 start height

As in dao-proposal-multiple: votes are weighed at the start height, so the
total they are measured against must be taken there too.
---
 contracts/proposal/dao-proposal-condorcet/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/proposal/dao-proposal-condorcet/src/contract.rs b/contracts/proposal/dao-proposal-condorcet/src/contract.rs
index 3d37850..82a192b 100644
--- a/contracts/proposal/dao-proposal-condorcet/src/contract.rs
+++ b/contracts/proposal/dao-proposal-condorcet/src/contract.rs
@@ -112,7 +112,7 @@ fn execute_propose(
     let config = CONFIG.load(deps.storage)?;
 
     let id = next_proposal_id(deps.storage)?;
-    let total_power = get_total_power(deps.as_ref(), &dao, None)?;
+    let total_power = get_total_power(deps.as_ref(), &dao, Some(env.block.height))?;
 
     if choices.is_empty() {
         return Err(ContractError::ZeroChoices {});
-- 
2.43.0


From 357b53a19c98ec28fe0c55248fc3195f9a38f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 03/19] fix: cw20-stake staked_value query overflows when
 shares times pool value exceeds u128

---
 contracts/staking/cw20-stake/src/contract.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/contracts/staking/cw20-stake/src/contract.rs b/contracts/staking/cw20-stake/src/contract.rs
index 64af748..4b71992 100644
--- a/contracts/staking/cw20-stake/src/contract.rs
+++ b/contracts/staking/cw20-stake/src/contract.rs
@@ -398,11 +398,7 @@ pub fn query_staked_value(
             value: Uint128::zero(),
         })
     } else {
-        let value = staked
-            .checked_mul(balance)
-            .map_err(StdError::overflow)?
-            .checked_div(total)
-            .map_err(StdError::divide_by_zero)?;
+        let value = math::amount_to_claim(total, balance, staked);
         Ok(StakedValueResponse { value })
     }
 }
-- 
2.43.0


From 86932f82b8c2c764e8ee1179cb71be949845ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 04/19] fix: let the pending owner of a cw721-roles contract
 accept ownership

---
 contracts/external/cw721-roles/src/contract.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index e3f0719..2950fce 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -55,8 +55,11 @@ pub fn execute(
     info: MessageInfo,
     msg: ExecuteMsg,
 ) -> Result<Response, ContractError> {
-    // Only owner / minter can execute
-    cw_ownable::assert_owner(deps.storage, &info.sender)?;
+    // Only owner / minter can execute. Ownership updates are checked by
+    // cw-ownable, which lets a pending owner accept the transfer offered to it.
+    if !matches!(msg, ExecuteMsg::UpdateOwnership(_)) {
+        cw_ownable::assert_owner(deps.storage, &info.sender)?;
+    }
 
     match msg {
         ExecuteMsg::Mint {
-- 
2.43.0


From 7de1591a9deaaf449602a0bca4e2749df0b4f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 05/19] fix: cw721-roles can burn a weightless role of an owner
 without member entry

---
 contracts/external/cw721-roles/src/contract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 2950fce..0762c85 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -180,7 +180,9 @@ pub fn execute_burn(
 
     // Update member weights and total
     let owner_addr = deps.api.addr_validate(&owner.owner)?;
-    let old_weight = MEMBERS.load(deps.storage, &owner_addr)?;
+    let old_weight = MEMBERS
+        .may_load(deps.storage, &owner_addr)?
+        .unwrap_or_default();
 
     // Subtract the nft weight from the member's old weight
     let new_weight = old_weight
-- 
2.43.0


From b7b72d303e505f9040b484b6eeb3ab0b7c197eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 06/19] fix: cw721-roles reports weight decreases to its hooks

---
 contracts/external/cw721-roles/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 0762c85..b41a63d 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -411,6 +411,8 @@ pub fn execute_update_token_weight(
 
                     // Subtract difference from the total
                     total = total.checked_sub(Uint64::from(weight_difference))?;
+                    // Set the diff for use in hooks
+                    diff = MemberDiff::new(token.clone().owner, old, Some(new_total_weight));
                 }
                 Ordering::Equal => return Err(ContractError::NoWeightChange {}),
             }
-- 
2.43.0


From f68175e63e13517b39b19be96ad776195287d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 07/19] fix: cw721-roles moves voting weight along with a
 transferred role

---
 .../external/cw721-roles/src/contract.rs      | 58 +++++++++++++++++--
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index b41a63d..1bf7919 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -1,8 +1,8 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    from_json, to_json_binary, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order, Response,
-    StdResult, SubMsg, Uint64,
+    from_json, to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order,
+    Response, StdResult, SubMsg, Uint64,
 };
 use cw4::{
     Member, MemberChangedHookMsg, MemberDiff, MemberListResponse, MemberResponse,
@@ -233,9 +233,49 @@ pub fn execute_burn(
         .add_submessages(msgs))
 }
 
+/// Moves a token's weight from one member to another and returns the
+/// resulting hook messages.
+fn transfer_weight(
+    deps: DepsMut,
+    env: &Env,
+    from: &Addr,
+    to: &Addr,
+    weight: u64,
+) -> Result<Vec<SubMsg>, ContractError> {
+    if from == to {
+        return Ok(vec![]);
+    }
+
+    let old_from = MEMBERS.may_load(deps.storage, from)?;
+    let new_from = old_from
+        .unwrap_or_default()
+        .checked_sub(weight)
+        .ok_or(ContractError::NegativeValue {})?;
+    let new_from = (new_from != 0).then_some(new_from);
+    match new_from {
+        Some(weight) => MEMBERS.save(deps.storage, from, &weight, env.block.height)?,
+        None => MEMBERS.remove(deps.storage, from, env.block.height)?,
+    }
+
+    let old_to = MEMBERS.may_load(deps.storage, to)?;
+    let new_to = old_to.unwrap_or_default() + weight;
+    MEMBERS.save(deps.storage, to, &new_to, env.block.height)?;
+
+    let diffs = MemberChangedHookMsg {
+        diffs: vec![
+            MemberDiff::new(from.to_string(), old_from, new_from),
+            MemberDiff::new(to.to_string(), old_to, Some(new_to)),
+        ],
+    };
+
+    Ok(HOOKS.prepare_hooks(deps.storage, |h| {
+        diffs.clone().into_cosmos_msg(h).map(SubMsg::new)
+    })?)
+}
+
 pub fn execute_transfer(
     deps: DepsMut,
-    _env: Env,
+    env: Env,
     info: MessageInfo,
     recipient: String,
     token_id: String,
@@ -243,12 +283,17 @@ pub fn execute_transfer(
     let contract = Cw721Roles::default();
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
+    let old_owner = token.owner;
     // set owner and remove existing approvals
     token.owner = deps.api.addr_validate(&recipient)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    // The voting weight follows the token
+    let hooks = transfer_weight(deps, &env, &old_owner, &token.owner, token.extension.weight)?;
+
     Ok(Response::new()
+        .add_submessages(hooks)
         .add_attribute("action", "transfer_nft")
         .add_attribute("sender", info.sender)
         .add_attribute("recipient", recipient)
@@ -257,7 +302,7 @@ pub fn execute_transfer(
 
 pub fn execute_send(
     deps: DepsMut,
-    _env: Env,
+    env: Env,
     info: MessageInfo,
     token_id: String,
     recipient_contract: String,
@@ -266,11 +311,15 @@ pub fn execute_send(
     let contract = Cw721Roles::default();
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
+    let old_owner = token.owner;
     // set owner and remove existing approvals
     token.owner = deps.api.addr_validate(&recipient_contract)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    // The voting weight follows the token
+    let hooks = transfer_weight(deps, &env, &old_owner, &token.owner, token.extension.weight)?;
+
     let send = Cw721ReceiveMsg {
         sender: info.sender.to_string(),
         token_id: token_id.clone(),
@@ -278,6 +327,7 @@ pub fn execute_send(
     };
 
     Ok(Response::new()
+        .add_submessages(hooks)
         .add_message(send.into_cosmos_msg(recipient_contract.clone())?)
         .add_attribute("action", "send_nft")
         .add_attribute("sender", info.sender)
-- 
2.43.0


From e139c3dc7a2900407c62e13007ee6a66a666e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 08/19] fix: a vetoed approver proposal rejects its
 pre-proposal

---
 .../pre-propose/dao-pre-propose-approver/src/contract.rs      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
index 268d3ba..e2d306c 100644
--- a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
+++ b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
@@ -170,7 +170,7 @@ pub fn execute_proposal_completed(
 
     // On completion send rejection or approval message
     let msg = match new_status {
-        Status::Closed => Some(WasmMsg::Execute {
+        Status::Closed | Status::Vetoed => Some(WasmMsg::Execute {
             contract_addr: approval_contract.into_string(),
             msg: to_json_binary(&PreProposeApprovalExecuteMsg::Extension {
                 msg: ApprovalExt::Reject { id: pre_propose_id },
@@ -187,7 +187,7 @@ pub fn execute_proposal_completed(
         _ => None,
     };
 
-    // If Status is not Executed or Closed, throw error
+    // If Status is not Executed, Closed or Vetoed, throw error
     match msg {
         Some(msg) => Ok(Response::default()
             .add_message(msg)
-- 
2.43.0


From 963b397f855040ecf9ad3783365406032fd46ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 09/19] fix: rewards distributor emits in proportion to elapsed
 time

Each update counted only whole emission periods since the last update but
moved the last update to the current block, so any update within a period
(a stake change, a claim) lost the rewards of the period so far for everyone.
---
 .../dao-rewards-distributor/src/helpers.rs        | 12 ++++++------
 .../dao-rewards-distributor/src/rewards.rs        | 15 ++++++++-------
 .../dao-rewards-distributor/src/state.rs          | 13 ++++++++-----
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/contracts/distribution/dao-rewards-distributor/src/helpers.rs b/contracts/distribution/dao-rewards-distributor/src/helpers.rs
index 04e88c4..b117235 100644
--- a/contracts/distribution/dao-rewards-distributor/src/helpers.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/helpers.rs
@@ -117,9 +117,9 @@ pub trait DurationExt {
     /// Returns true if the duration is 0 blocks or 0 seconds.
     fn is_zero(&self) -> bool;
 
-    /// Perform checked integer division between two durations, erroring if the
-    /// units do not match or denominator is 0.
-    fn checked_div(&self, denominator: &Self) -> Result<Uint128, ContractError>;
+    /// The numerator and denominator of the ratio between two durations,
+    /// erroring if the units do not match.
+    fn checked_ratio(&self, denominator: &Self) -> Result<(Uint128, Uint128), ContractError>;
 }
 
 impl DurationExt for Duration {
@@ -130,13 +130,13 @@ impl DurationExt for Duration {
         }
     }
 
-    fn checked_div(&self, denominator: &Self) -> Result<Uint128, ContractError> {
+    fn checked_ratio(&self, denominator: &Self) -> Result<(Uint128, Uint128), ContractError> {
         match (self, denominator) {
             (Duration::Height(numerator), Duration::Height(denominator)) => {
-                Ok(Uint128::from(*numerator).checked_div(Uint128::from(*denominator))?)
+                Ok((Uint128::from(*numerator), Uint128::from(*denominator)))
             }
             (Duration::Time(numerator), Duration::Time(denominator)) => {
-                Ok(Uint128::from(*numerator).checked_div(Uint128::from(*denominator))?)
+                Ok((Uint128::from(*numerator), Uint128::from(*denominator)))
             }
             _ => Err(ContractError::Std(StdError::generic_err(format!(
                 "incompatible durations: got numerator {:?} and denominator {:?}",
diff --git a/contracts/distribution/dao-rewards-distributor/src/rewards.rs b/contracts/distribution/dao-rewards-distributor/src/rewards.rs
index da231ce..f642fe8 100644
--- a/contracts/distribution/dao-rewards-distributor/src/rewards.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/rewards.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{Addr, BlockInfo, Deps, DepsMut, Env, StdResult, Uint128, Uint256};
+use cosmwasm_std::{Addr, BlockInfo, Deps, DepsMut, Env, StdError, StdResult, Uint128, Uint256};
 use cw20::Expiration;
 
 use crate::{
@@ -121,18 +121,19 @@ pub fn get_active_total_earned_puvp(
             if total_power.is_zero() {
                 Ok(curr)
             } else {
-                // count intervals of the rewards emission that have passed
-                // since the last update which need to be distributed
-                let complete_distribution_periods =
-                    new_reward_distribution_duration.checked_div(&duration)?;
+                // the share of the emission interval that has passed since the
+                // last update and needs to be distributed
+                let (elapsed, duration) =
+                    new_reward_distribution_duration.checked_ratio(&duration)?;
 
                 // It is impossible for this to overflow as total rewards can
                 // never exceed max value of Uint128 as total tokens in
                 // existence cannot exceed Uint128 (because the bank module Coin
                 // type uses Uint128).
                 let new_rewards_distributed = amount
-                    .full_mul(complete_distribution_periods)
-                    .checked_mul(scale_factor())?;
+                    .full_mul(elapsed)
+                    .checked_multiply_ratio(scale_factor(), Uint256::from(duration))
+                    .map_err(|e| StdError::generic_err(e.to_string()))?;
 
                 // the new rewards per unit voting power that have been
                 // distributed since the last update
diff --git a/contracts/distribution/dao-rewards-distributor/src/state.rs b/contracts/distribution/dao-rewards-distributor/src/state.rs
index 9095e91..430c75a 100644
--- a/contracts/distribution/dao-rewards-distributor/src/state.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/state.rs
@@ -244,11 +244,14 @@ impl DistributionState {
 
                 let epoch_duration = expiration.duration_since(&self.active_epoch.started_at)?;
 
-                // count total intervals of the rewards emission that will pass
-                // based on the start and end times.
-                let complete_distribution_periods = epoch_duration.checked_div(&duration)?;
-
-                Ok(amount.checked_mul(complete_distribution_periods)?)
+                // rewards are emitted in proportion to the time that passes from
+                // the start to the end, rounding up so that no fraction that
+                // users may have earned is counted as undistributed.
+                let (elapsed, duration) = epoch_duration.checked_ratio(&duration)?;
+
+                Ok(amount
+                    .checked_mul_ceil((elapsed, duration))
+                    .map_err(|e| StdError::generic_err(e.to_string()))?)
             }
         }
     }
-- 
2.43.0


From b3e5a43b68684f20ba454531cfbe72f7a792a204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 10/19] fix: restarting a linear distribution keeps its
 undistributed funds

Funding an expired discontinuous distribution overwrote funded_amount, so
whatever the rounded-down end had left undistributed was stuck forever.
---
 .../distribution/dao-rewards-distributor/src/contract.rs    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/distribution/dao-rewards-distributor/src/contract.rs b/contracts/distribution/dao-rewards-distributor/src/contract.rs
index c9d2955..3190d07 100644
--- a/contracts/distribution/dao-rewards-distributor/src/contract.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/contract.rs
@@ -428,8 +428,12 @@ fn execute_fund_linear(
             // last updated block is reset to the new start block below
         }
 
+        // carry over any funds that the past distribution did not distribute,
+        // since its end is rounded down.
+        let undistributed = distribution.get_undistributed_rewards(&env.block)?;
+
         // reset all starting fields since a new distribution is starting
-        distribution.funded_amount = amount;
+        distribution.funded_amount = undistributed.checked_add(amount)?;
         distribution.active_epoch.started_at = match distribution.active_epoch.emission_rate {
             EmissionRate::Paused {} => Expiration::Never {},
             EmissionRate::Immediate {} => Expiration::Never {},
-- 
2.43.0


From 34b4cb5b9e2627326f2d7b022dde003ad37f3a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 11/19] fix: cw-stake-tracker counts validators correctly when
 staking with one that is unbonding

The recorded future of a validator's stake decides when it stops being
counted; delegating to a validator whose whole stake is unbonding counted
it twice, and a later undelegation underflowed.
---
 packages/cw-stake-tracker/src/lib.rs | 95 ++++++++++++----------------
 1 file changed, 39 insertions(+), 56 deletions(-)

diff --git a/packages/cw-stake-tracker/src/lib.rs b/packages/cw-stake-tracker/src/lib.rs
index b9c6339..2a38049 100644
--- a/packages/cw-stake-tracker/src/lib.rs
+++ b/packages/cw-stake-tracker/src/lib.rs
@@ -58,16 +58,9 @@ impl<'a> StakeTracker<'a> {
     ) -> StdResult<()> {
         self.total_staked
             .increment(storage, (), t.seconds(), amount)?;
-        let old = self
-            .validators
-            .load(storage, validator.clone(), t.seconds())?
-            .unwrap_or_default();
-        if old.is_zero() && !amount.is_zero() {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        self.validators
-            .increment(storage, validator, t.seconds(), amount)?;
-        Ok(())
+        self.update_validator(storage, validator, t.seconds(), &mut |staked| {
+            staked + amount
+        })
     }
 
     /// Makes note of a redelegation. Note, this only supports
@@ -83,19 +76,8 @@ impl<'a> StakeTracker<'a> {
         dst: String,
         amount: Uint128,
     ) -> StdResult<()> {
-        let new = self
-            .validators
-            .decrement(storage, src, t.seconds(), amount)?;
-        if new.is_zero() {
-            self.cardinality.decrement(storage, (), t.seconds(), 1)?;
-        }
-        let new = self
-            .validators
-            .increment(storage, dst, t.seconds(), amount)?;
-        if new == amount {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        Ok(())
+        self.update_validator(storage, src, t.seconds(), &mut |staked| staked - amount)?;
+        self.update_validator(storage, dst, t.seconds(), &mut |staked| staked + amount)
     }
 
     pub fn on_undelegate(
@@ -112,17 +94,12 @@ impl<'a> StakeTracker<'a> {
             t.seconds() + unbonding_duration_seconds,
             amount,
         )?;
-        let new = self.validators.decrement(
+        self.update_validator(
             storage,
             validator,
             t.seconds() + unbonding_duration_seconds,
-            amount,
-        )?;
-        if new.is_zero() && !amount.is_zero() {
-            self.cardinality
-                .decrement(storage, (), t.seconds() + unbonding_duration_seconds, 1)?;
-        }
-        Ok(())
+            &mut |staked| staked - amount,
+        )
     }
 
     /// Registers a slash of bonded tokens.
@@ -139,6 +116,23 @@ impl<'a> StakeTracker<'a> {
         t: Timestamp,
         validator: String,
         amount: Uint128,
+    ) -> StdResult<()> {
+        self.total_staked
+            .decrement(storage, (), t.seconds(), amount)?;
+        self.update_validator(storage, validator, t.seconds(), &mut |staked| {
+            staked - amount
+        })
+    }
+
+    /// Updates the amount staked with `validator` at time `t` and all
+    /// later times for which a value is already known, and the
+    /// validator cardinality along with it.
+    fn update_validator(
+        &self,
+        storage: &mut dyn Storage,
+        validator: String,
+        t: u64,
+        update: &mut dyn FnMut(Uint128) -> Uint128,
     ) -> StdResult<()> {
         enum Change {
             /// Increment by one at (time: u64).
@@ -147,35 +141,24 @@ impl<'a> StakeTracker<'a> {
             Dec(u64),
         }
 
-        self.total_staked
-            .decrement(storage, (), t.seconds(), amount)?;
-
-        // tracks if the last value was non-zero after removing the
-        // slash amount. invariant (2) lets us initialize this to true
-        // as staked tokens are a prerequisite for slashing.
-        let mut was_nonzero = true;
-        // the set of times that the cardinality would have changed
-        // had the slash event been known.
+        // how the cardinality needs to change at the last time visited.
+        let mut last = 0;
+        // the set of times that the needed change is another one.
         let mut cardinality_changes = vec![];
 
-        // visit the history, update values to include the slashed
-        // amount, and make note of the changes to the cardinality
-        // history needed.
+        // visit the history, update values, and make note of the
+        // changes to the cardinality history needed. a validator
+        // counts whenever it has a non-zero amount staked.
         self.validators
-            .update(storage, validator, t.seconds(), &mut |staked, time| {
-                let new = staked - amount;
-                if new.is_zero() && was_nonzero {
-                    // the slash would have removed all staked tokens
-                    // at `time` => decrement the cardinality at `time`.
-                    cardinality_changes.push(Change::Dec(time));
-                    was_nonzero = false;
-                } else if !new.is_zero() && !was_nonzero {
-                    // the staked amount (including the slash) was
-                    // zero, and more tokens were staked, increment
-                    // the cardinality.
-                    cardinality_changes.push(Change::Inc(time));
-                    was_nonzero = true;
+            .update(storage, validator, t, &mut |staked, time| {
+                let new = update(staked);
+                let change = !new.is_zero() as i8 - !staked.is_zero() as i8;
+                match change - last {
+                    1 => cardinality_changes.push(Change::Inc(time)),
+                    -1 => cardinality_changes.push(Change::Dec(time)),
+                    _ => (),
                 }
+                last = change;
                 new
             })?;
 
-- 
2.43.0


From 363ce5b0c13ee43d0f83df11dbd3d8501fef7e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 12/19] fix: cw-vesting counts slashes against what is liquid
 after a cancellation

Slashed tokens which are deducted from what the recipient is owed are not
in the contract.
---
 contracts/external/cw-vesting/src/vesting.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index 50b9d7d..1a83a25 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -146,8 +146,12 @@ impl<'a> Payment<'a> {
                 // `owner_withdrawable`. We don't count slashes that
                 // occured during the Funded state as those are
                 // considered when computing `owner_withdrawable`
-                // initially.
-                owner_withdrawable + (vesting.total() - vesting.claimed) - staked
+                // initially. `vesting.slashed` counts against what
+                // the vestee is still owed, be it from the Funded
+                // state or spilled over from the owner's part.
+                owner_withdrawable
+                    + (vesting.total() - vesting.claimed).saturating_sub(vesting.slashed)
+                    - staked
             }
         }
     }
-- 
2.43.0


From 70c86d93613c0b837794874f1bada27a89233ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 13/19] fix: cw-vesting can cancel an unfunded payment that has
 started vesting

---
 contracts/external/cw-vesting/src/vesting.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index 1a83a25..7264a8f 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -226,10 +226,16 @@ impl<'a> Payment<'a> {
         } else {
             let staked = self.staking.total_staked(storage, t)?;
 
+            // Nothing vests if the vest was never funded.
+            let vested = match vesting.status {
+                Status::Unfunded => Uint128::zero(),
+                _ => vesting.vested(t),
+            };
+
             // Use liquid tokens to settle vestee as much as possible
             // and return any remaining liquid funds to the owner.
             let liquid = self.liquid(&vesting, staked);
-            let claimable = (vesting.vested(t) - vesting.claimed).saturating_sub(vesting.slashed);
+            let claimable = (vested - vesting.claimed).saturating_sub(vesting.slashed);
             let to_vestee = min(claimable, liquid);
             let to_owner = liquid - to_vestee;
 
@@ -240,9 +246,9 @@ impl<'a> Payment<'a> {
             // staked tokens that are not needed to settle the
             // vestee.
             let owner_outstanding =
-                staked - (vesting.vested(t) - vesting.claimed).saturating_sub(vesting.slashed);
+                staked - (vested - vesting.claimed).saturating_sub(vesting.slashed);
 
-            vesting.cancel(t, owner_outstanding);
+            vesting.cancel(vested, owner_outstanding);
             self.vesting.save(storage, &vesting)?;
 
             // As the vest is cancelled, the veste is no longer
@@ -444,12 +450,13 @@ impl Vest {
         self.vested.value(elapsed)
     }
 
-    /// Cancels the current vest. No additional tokens will vest after `t`.
-    pub fn cancel(&mut self, t: Timestamp, owner_withdrawable: Uint128) {
+    /// Cancels the current vest. No tokens will vest in addition to
+    /// the `vested` ones.
+    pub fn cancel(&mut self, vested: Uint128, owner_withdrawable: Uint128) {
         debug_assert!(!matches!(self.status, Status::Canceled { .. }));
 
         self.status = Status::Canceled { owner_withdrawable };
-        self.vested = Curve::Constant { y: self.vested(t) };
+        self.vested = Curve::Constant { y: vested };
     }
 
     /// Gets the duration of the vest. For constant curves, `None` is
-- 
2.43.0


From 003415a07387f26acdd277fd675fa07efd624fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 14/19] fix: cw-vesting interpolates schedules without
 overflowing

---
 contracts/external/cw-vesting/src/vesting.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index 7264a8f..d467dac 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -447,7 +447,23 @@ impl Vest {
     /// Gets the number of tokens that have vested at `time`.
     pub fn vested(&self, t: Timestamp) -> Uint128 {
         let elapsed = t.seconds().saturating_sub(self.start_time.seconds());
-        self.vested.value(elapsed)
+        // Between two points of the curve, interpolate with a 256 bit
+        // intermediate: amount * seconds does not always fit 128 bits.
+        let segment = match &self.vested {
+            Curve::Constant { .. } => None,
+            Curve::SaturatingLinear(l) => Some(((l.min_x, l.min_y), (l.max_x, l.max_y))),
+            Curve::PiecewiseLinear(p) => p
+                .steps
+                .windows(2)
+                .map(|w| (w[0], w[1]))
+                .find(|(_, end)| elapsed <= end.0),
+        };
+        match segment {
+            Some((start, end)) if start.0 <= elapsed && elapsed <= end.0 => {
+                start.1 + (end.1 - start.1).multiply_ratio(elapsed - start.0, end.0 - start.0)
+            }
+            _ => self.vested.value(elapsed),
+        }
     }
 
     /// Cancels the current vest. No tokens will vest in addition to
-- 
2.43.0


From b7eeac8fece0f768a42ae8696f17bba3981c17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 15/19] fix: cw-vesting does not fail when tokens which are not
 part of the vest are staked

Staking tokens that were sent to the contract made the liquid amount
underflow, so a recipient could keep the owner from cancelling.
---
 contracts/external/cw-vesting/src/vesting.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index d467dac..dc0e322 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -113,7 +113,12 @@ impl<'a> Payment<'a> {
     fn liquid(&self, vesting: &Vest, staked: Uint128) -> Uint128 {
         match vesting.status {
             Status::Unfunded => Uint128::zero(),
-            Status::Funded => vesting.total() - vesting.claimed - staked - vesting.slashed,
+            // Tokens which are not part of the vest (say, sent to the
+            // contract by accident) may be staked as well, in which
+            // case more than the vest's tokens are staked.
+            Status::Funded => {
+                (vesting.total() - vesting.claimed).saturating_sub(staked + vesting.slashed)
+            }
             Status::Canceled { owner_withdrawable } => {
                 // On cancelation, all liquid funds are settled and
                 // vesting.total() is set to the amount that has
@@ -149,9 +154,9 @@ impl<'a> Payment<'a> {
                 // initially. `vesting.slashed` counts against what
                 // the vestee is still owed, be it from the Funded
                 // state or spilled over from the owner's part.
-                owner_withdrawable
-                    + (vesting.total() - vesting.claimed).saturating_sub(vesting.slashed)
-                    - staked
+                (owner_withdrawable
+                    + (vesting.total() - vesting.claimed).saturating_sub(vesting.slashed))
+                .saturating_sub(staked)
             }
         }
     }
-- 
2.43.0


From f2078188ff7a0b5b3fc7f9658b8e1af27fa31200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 16/19] fix: cw-fund-distributor takes the total power at the
 distribution height

Claims are shares of the claimant's power at the distribution height; the
total was taken at the block of creation, and not updated when unclaimed
funds are redistributed at another height.
---
 .../cw-fund-distributor/src/contract.rs       | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/contracts/distribution/cw-fund-distributor/src/contract.rs b/contracts/distribution/cw-fund-distributor/src/contract.rs
index c5539d1..84ec0e0 100644
--- a/contracts/distribution/cw-fund-distributor/src/contract.rs
+++ b/contracts/distribution/cw-fund-distributor/src/contract.rs
@@ -44,22 +44,32 @@ pub fn instantiate(
     let voting_contract = deps.api.addr_validate(&msg.voting_contract)?;
     VOTING_CONTRACT.save(deps.storage, &voting_contract)?;
 
+    let total_power = save_total_power(deps, voting_contract.clone(), msg.distribution_height)?;
+
+    Ok(Response::default()
+        .add_attribute("distribution_height", env.block.height.to_string())
+        .add_attribute("voting_contract", voting_contract)
+        .add_attribute("total_power", total_power))
+}
+
+/// Validates and stores the total power at the distribution height, of which
+/// every claimant's power at that height is a share.
+fn save_total_power(
+    deps: DepsMut,
+    voting_contract: Addr,
+    distribution_height: u64,
+) -> Result<Uint128, ContractError> {
     let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
-        voting_contract.clone(),
+        voting_contract,
         &voting::Query::TotalPowerAtHeight {
-            height: Some(env.block.height),
+            height: Some(distribution_height),
         },
     )?;
-    // validate the total power and store it
     if total_power.power.is_zero() {
         return Err(ContractError::ZeroVotingPower {});
     }
     TOTAL_POWER.save(deps.storage, &total_power.power)?;
-
-    Ok(Response::default()
-        .add_attribute("distribution_height", env.block.height.to_string())
-        .add_attribute("voting_contract", voting_contract)
-        .add_attribute("total_power", total_power.power))
+    Ok(total_power.power)
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
@@ -558,11 +568,13 @@ pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, Co
 
 // only cw_admin can call this
 fn execute_redistribute_unclaimed_funds(
-    deps: DepsMut,
+    mut deps: DepsMut,
     distribution_height: u64,
 ) -> Result<Response, ContractError> {
-    // update the distribution height
+    // update the distribution height, and the total power with it
     DISTRIBUTION_HEIGHT.save(deps.storage, &distribution_height)?;
+    let voting_contract = VOTING_CONTRACT.load(deps.storage)?;
+    save_total_power(deps.branch(), voting_contract, distribution_height)?;
 
     // get performed claims of cw20 and native tokens
     let performed_cw20_claims: Vec<Cw20ClaimEntry> = CW20_CLAIMS
-- 
2.43.0


From 15e1939c90ffe259d6c2fef782f1b6b2f9ffabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 17/19] fix: cw-payroll-factory only funds vests with the
 tokens it is sent

A vest of another cw20 than the one sent was funded from tokens lying in the
factory, and the sent ones stayed there; so was a cw20 vest made with the
native message.
---
 contracts/external/cw-payroll-factory/src/contract.rs | 11 ++++++++++-
 contracts/external/cw-payroll-factory/src/error.rs    |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/contracts/external/cw-payroll-factory/src/contract.rs b/contracts/external/cw-payroll-factory/src/contract.rs
index ff03317..24d8b7b 100644
--- a/contracts/external/cw-payroll-factory/src/contract.rs
+++ b/contracts/external/cw-payroll-factory/src/contract.rs
@@ -9,7 +9,7 @@ use cosmwasm_std::{Addr, Coin};
 use cw2::set_contract_version;
 use cw20::Cw20ExecuteMsg;
 use cw20::Cw20ReceiveMsg;
-use cw_denom::CheckedDenom;
+use cw_denom::{CheckedDenom, UncheckedDenom};
 use cw_storage_plus::Bound;
 use cw_utils::{nonpayable, parse_reply_instantiate_data};
 use cw_vesting::msg::{
@@ -87,6 +87,10 @@ pub fn execute_receive_cw20(
             instantiate_msg,
             label,
         } => {
+            // The tokens received are the ones the vest is funded with.
+            if instantiate_msg.denom != UncheckedDenom::Cw20(info.sender.to_string()) {
+                return Err(ContractError::WrongDenom {});
+            }
             if receive_msg.amount != instantiate_msg.total {
                 return Err(ContractError::WrongFundAmount {
                     sent: receive_msg.amount,
@@ -104,6 +108,11 @@ pub fn execute_instantiate_native_payroll_contract(
     instantiate_msg: PayrollInstantiateMsg,
     label: String,
 ) -> Result<Response, ContractError> {
+    // Payments in cw20 tokens are made by sending the tokens.
+    if !matches!(instantiate_msg.denom, UncheckedDenom::Native(_)) {
+        return Err(ContractError::WrongDenom {});
+    }
+
     // Save instantiator info for use in reply
     TMP_INSTANTIATOR_INFO.save(deps.storage, &info.sender)?;
 
diff --git a/contracts/external/cw-payroll-factory/src/error.rs b/contracts/external/cw-payroll-factory/src/error.rs
index e251a2a..e2c0313 100644
--- a/contracts/external/cw-payroll-factory/src/error.rs
+++ b/contracts/external/cw-payroll-factory/src/error.rs
@@ -28,4 +28,7 @@ pub enum ContractError {
 
     #[error("vesting contract vests ({expected}) tokens, funded with ({sent})")]
     WrongFundAmount { sent: Uint128, expected: Uint128 },
+
+    #[error("funded with tokens other than the vesting contract vests")]
+    WrongDenom {},
 }
-- 
2.43.0


From 226105388033f0a0989f3ce0dab69f3d61fb253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 18/19] fix: cw-admin-factory checks each nested instantiation
 against its own expected address

---
 .../external/cw-admin-factory/src/contract.rs   | 17 ++++++++++-------
 .../external/cw-admin-factory/src/state.rs      |  6 ++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/contracts/external/cw-admin-factory/src/contract.rs b/contracts/external/cw-admin-factory/src/contract.rs
index d0ac8fc..c50643a 100644
--- a/contracts/external/cw-admin-factory/src/contract.rs
+++ b/contracts/external/cw-admin-factory/src/contract.rs
@@ -106,10 +106,11 @@ pub fn instantiate2_contract(
         }
     }
 
-    if let Some(expect) = expect {
-        let expect = deps.api.addr_validate(&expect)?;
-        EXPECT.save(deps.storage, &expect)?;
-    }
+    // Save the expected address, if any, for use in reply.
+    let expect = expect.map(|e| deps.api.addr_validate(&e)).transpose()?;
+    let mut expected = EXPECT.may_load(deps.storage)?.unwrap_or_default();
+    expected.push(expect);
+    EXPECT.save(deps.storage, &expected)?;
 
     // Instantiate the specified contract with factory as the admin.
     let instantiate = WasmMsg::Instantiate2 {
@@ -145,10 +146,12 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
             let contract_addr = deps.api.addr_validate(&res.contract_address)?;
 
             if msg_id == INSTANTIATE2_CONTRACT_REPLY_ID {
-                // If saved an expected address, verify it matches and clear it.
-                let expect = EXPECT.may_load(deps.storage)?;
+                // Clear what was saved for this instantiation and, if it is an
+                // expected address, verify it matches.
+                let mut expected = EXPECT.may_load(deps.storage)?.unwrap_or_default();
+                let expect = expected.pop().flatten();
+                EXPECT.save(deps.storage, &expected)?;
                 if let Some(expect) = expect {
-                    EXPECT.remove(deps.storage);
                     if contract_addr != expect {
                         return Err(ContractError::UnexpectedContractAddress {
                             expected: expect.to_string(),
diff --git a/contracts/external/cw-admin-factory/src/state.rs b/contracts/external/cw-admin-factory/src/state.rs
index 9957a96..bcea0ed 100644
--- a/contracts/external/cw-admin-factory/src/state.rs
+++ b/contracts/external/cw-admin-factory/src/state.rs
@@ -4,5 +4,7 @@ use cw_storage_plus::Item;
 /// The account allowed to execute the contract. If None, anyone is allowed.
 pub const ADMIN: Item<Option<Addr>> = Item::new("admin");
 
-/// The expected instantiate2 address to validate in the reply.
-pub const EXPECT: Item<Addr> = Item::new("expect");
+/// The expected instantiate2 addresses, if any, to validate in the replies. There
+/// is one for each instantiation in progress, innermost last, since a contract
+/// may use the factory while it is being instantiated.
+pub const EXPECT: Item<Vec<Option<Addr>>> = Item::new("expected");
-- 
2.43.0


From da2a6702b1923f77dd49c961d2f4f97682bcad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 19/19] fix: migrating a cw20-stake v1 that was never staked to
 initializes its totals

---
 contracts/staking/cw20-stake/src/contract.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/contracts/staking/cw20-stake/src/contract.rs b/contracts/staking/cw20-stake/src/contract.rs
index 4b71992..20975df 100644
--- a/contracts/staking/cw20-stake/src/contract.rs
+++ b/contracts/staking/cw20-stake/src/contract.rs
@@ -452,7 +452,7 @@ pub fn query_list_stakers(
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
+pub fn migrate(deps: DepsMut, env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
     use cw20_stake_v1 as v1;
 
     let ContractVersion { version, .. } = get_contract_version(deps.storage)?;
@@ -479,6 +479,15 @@ pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, Co
             };
             CONFIG.save(deps.storage, &config)?;
 
+            // v1 did not initialize these on instantiation, so they
+            // are unset if nothing has been staked or funded yet.
+            if STAKED_TOTAL.may_load(deps.storage)?.is_none() {
+                STAKED_TOTAL.save(deps.storage, &Uint128::zero(), env.block.height)?;
+            }
+            if BALANCE.may_load(deps.storage)?.is_none() {
+                BALANCE.save(deps.storage, &Uint128::zero())?;
+            }
+
             Ok(Response::default())
         }
     }
-- 
2.43.0

