From 564dc5a092d314d243a096cca72013c234102966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 01/14] fix: transmuter reverse simulation compares pool
 balance and ask amount in the same units

---
 contracts/pair_transmuter/src/queries.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/contracts/pair_transmuter/src/queries.rs b/contracts/pair_transmuter/src/queries.rs
index b07f8e8..c6daf44 100644
--- a/contracts/pair_transmuter/src/queries.rs
+++ b/contracts/pair_transmuter/src/queries.rs
@@ -118,9 +118,8 @@ pub fn reverse_swap(
         .find(|asset| asset.info == ask_asset.info)
         .ok_or_else(|| ContractError::InvalidAsset(ask_asset.info.to_string()))?;
 
-    let ask_asset = config.normalize(&ask_asset)?;
-
     if ask_pool.amount >= ask_asset.amount {
+        let ask_asset = config.normalize(&ask_asset)?;
         let offer_asset = offer_asset_info.with_balance(ask_asset.amount);
         config.denormalize(&offer_asset).map(|asset| asset.amount)
     } else {
-- 
2.43.0


From 79f572f61588b7137aa62281246e88805d171284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 02/14] fix: incentives deregister_reward does not account
 returned orphaned rewards twice

---
 contracts/tokenomics/incentives/src/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d06659a..3f3f819 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -379,9 +379,11 @@ impl PoolInfo {
             .iter()
             .find_position(|reward| matches!(&reward.reward, RewardType::Ext { info, .. } if info == reward_asset))
             .ok_or_else(|| ContractError::RewardNotFound { pool: lp_asset.to_string(), reward: reward_asset.to_string() })?;
+        // Orphaned rewards are returned to the caller below thus they must not be accounted in
+        // ORPHANED_REWARDS once again.
         self.rewards_to_remove.insert(
             reward_info.reward.clone(),
-            (reward_info.index, reward_info.orphaned),
+            (reward_info.index, Decimal256::zero()),
         );
         let reward_info = self.rewards.remove(pos);
 
-- 
2.43.0


From 2f85115ee6bf88e0b1d616c55e667deddd97e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 03/14] fix: incentives keep indexes of all rewards finished
 within the same block

---
 contracts/tokenomics/incentives/src/state.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 3f3f819..35dd314 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -455,11 +455,18 @@ impl PoolInfo {
                         let finished_indexes = group
                             .map(|(reward_asset_info, (index, _))| (reward_asset_info, index))
                             .collect_vec();
-                        FINISHED_REWARD_INDEXES.save(
-                            storage,
-                            (lp_token, self.last_update_ts),
-                            &finished_indexes,
-                        )
+                        // Other rewards could have been finished within the same block
+                        FINISHED_REWARD_INDEXES
+                            .update::<_, StdError>(
+                                storage,
+                                (lp_token, self.last_update_ts),
+                                |saved_indexes| {
+                                    let mut indexes = saved_indexes.unwrap_or_default();
+                                    indexes.extend(finished_indexes);
+                                    Ok(indexes)
+                                },
+                            )
+                            .map(|_| ())
                     } else {
                         // Processing finished schedules with orphaned rewards
                         for (reward, (_, orphaned_amount)) in group {
-- 
2.43.0


From 52f20a6fe04dd73025897f08c238ceb627806070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 04/14] fix: incentives do not leave a stale user index of a
 reward removed in the block of the claim

---
 contracts/tokenomics/incentives/src/state.rs | 58 ++++++++++++--------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 35dd314..e3ca574 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -568,6 +568,36 @@ impl UserInfo {
         USER_INFO.may_load(storage, (lp_token, user))
     }
 
+    /// Load indexes of all rewards which finished after the last time user claimed rewards.
+    /// A reward deregistered in the same block, but after user claimed, is also returned.
+    /// In that case user still holds a non-zero index for this reward, otherwise
+    /// they synced their position after deregistration.
+    fn finished_since_last_claim(
+        &self,
+        storage: &dyn Storage,
+        lp_token: &AssetInfo,
+    ) -> StdResult<Vec<(AssetInfo, Decimal256)>> {
+        let mut finished = vec![];
+        for res in FINISHED_REWARD_INDEXES.prefix(lp_token).range(
+            storage,
+            Some(Bound::inclusive(self.last_claim_time)),
+            None,
+            Order::Ascending,
+        ) {
+            let (finished_ts, indexes) = res?;
+            finished.extend(indexes.into_iter().filter(|(reward_info, _)| {
+                finished_ts > self.last_claim_time
+                    || self.last_rewards_index.iter().any(|(reward, index)| {
+                        reward.is_external()
+                            && reward.asset_info() == reward_info
+                            && !index.is_zero()
+                    })
+            }));
+        }
+
+        Ok(finished)
+    }
+
     /// Reset user index for all finished rewards.
     /// This function is called after processing finished schedules and before processing active
     /// schedules for a specific user.
@@ -581,18 +611,9 @@ impl UserInfo {
         lp_token: &AssetInfo,
         pool_info: &PoolInfo,
     ) -> StdResult<()> {
-        let mut finished: HashSet<_> = FINISHED_REWARD_INDEXES
-            .prefix(lp_token)
-            .range(
-                storage,
-                Some(Bound::exclusive(self.last_claim_time)),
-                None,
-                Order::Ascending,
-            )
-            .map(|res| res.map(|(_, indexes)| indexes))
-            .collect::<StdResult<Vec<_>>>()?
+        let mut finished: HashSet<_> = self
+            .finished_since_last_claim(storage, lp_token)?
             .into_iter()
-            .flatten()
             .map(|(reward_asset, _)| reward_asset)
             .collect();
 
@@ -624,18 +645,9 @@ impl UserInfo {
         lp_token: &AssetInfo,
         pool_info: &PoolInfo,
     ) -> StdResult<Vec<Asset>> {
-        let finished_iter = FINISHED_REWARD_INDEXES
-            .prefix(lp_token)
-            .range(
-                storage,
-                Some(Bound::exclusive(self.last_claim_time)),
-                None,
-                Order::Ascending,
-            )
-            .map(|res| res.map(|(_, indexes)| indexes))
-            .collect::<StdResult<Vec<_>>>()?
-            .into_iter()
-            .flatten();
+        let finished_iter = self
+            .finished_since_last_claim(storage, lp_token)?
+            .into_iter();
 
         let to_remove_iter = pool_info
             .rewards_to_remove
-- 
2.43.0


From 57fc133a008652f52fcaaf88e41840e81cb2aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 05/14] fix: incentives do not disable a pool twice when both
 its tokens are blocked at once

---
 contracts/tokenomics/incentives/src/execute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/execute.rs b/contracts/tokenomics/incentives/src/execute.rs
index 63cee31..158b0bb 100644
--- a/contracts/tokenomics/incentives/src/execute.rs
+++ b/contracts/tokenomics/incentives/src/execute.rs
@@ -522,7 +522,12 @@ fn update_blocked_pool_tokens(
                 }
 
                 for (lp_asset, asset_infos, alloc_points) in &active_pools {
-                    if asset_infos.contains(token_to_block) {
+                    // A pool could hold several tokens from the list
+                    if asset_infos.contains(token_to_block)
+                        && !to_disable
+                            .iter()
+                            .any(|(disable_lp, _)| disable_lp == lp_asset)
+                    {
                         to_disable.push((lp_asset.clone(), alloc_points));
                     }
                 }
-- 
2.43.0


From d001e18cc32873201670f0db255e875d4c38c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 06/14] fix: incentives deactivate a deregistered pool also
 while its emission rate is zero

---
 contracts/tokenomics/incentives/src/utils.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/utils.rs b/contracts/tokenomics/incentives/src/utils.rs
index d213c5a..a17b33f 100644
--- a/contracts/tokenomics/incentives/src/utils.rs
+++ b/contracts/tokenomics/incentives/src/utils.rs
@@ -112,16 +112,17 @@ pub fn deactivate_pool(
 
     let lp_token_asset = determine_asset_info(&lp_token, deps.api)?;
 
-    match PoolInfo::may_load(deps.storage, &lp_token_asset)? {
-        Some(mut pool_info) if pool_info.is_active_pool() => {
-            let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
-
-            let (ind, _) = active_pools
-                .iter()
-                .find_position(|(lp_asset, _)| lp_asset == &lp_token_asset)
-                .unwrap();
+    let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
+    let active_pool = active_pools
+        .iter()
+        .position(|(lp_asset, _)| lp_asset == &lp_token_asset);
+
+    // Pool is active even if its current ASTRO reward per second is zero
+    match active_pool {
+        Some(ind) => {
             let (_, alloc_points) = active_pools.swap_remove(ind);
 
+            let mut pool_info = PoolInfo::load(deps.storage, &lp_token_asset)?;
             pool_info.update_rewards(deps.storage, &env, &lp_token_asset)?;
             pool_info.disable_astro_rewards();
             pool_info.save(deps.storage, &lp_token_asset)?;
-- 
2.43.0


From dc8a1f1d655222e89f38e2840123aa117267e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 07/14] fix: incentives pool stakers query honours the
 requested limit

---
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index e3ca574..702166c 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -505,7 +505,7 @@ pub fn list_pool_stakers(
     limit: Option<u8>,
 ) -> StdResult<Vec<(Addr, Uint128)>> {
     let start = start_after.as_ref().map(Bound::exclusive);
-    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).max(MAX_PAGE_LIMIT);
+    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).min(MAX_PAGE_LIMIT);
     USER_INFO
         .prefix(lp_token)
         .range(storage, start, None, Order::Ascending)
-- 
2.43.0


From 9f5c28478ecb65b08ddf0b51bb650052d56dc473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 08/14] fix: stable pool accumulates past prices from the
 balances before a deposit

---
 contracts/pair_stable/src/contract.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/contracts/pair_stable/src/contract.rs b/contracts/pair_stable/src/contract.rs
index 332edbc..534a83b 100644
--- a/contracts/pair_stable/src/contract.rs
+++ b/contracts/pair_stable/src/contract.rs
@@ -388,6 +388,18 @@ pub fn provide_liquidity(
         }
     }
 
+    // Pool balances before this deposit, which are the ones the past prices result from
+    let pools = assets_collection
+        .iter()
+        .map(|(deposit, pool)| {
+            let precision = get_precision(deps.storage, &deposit.info)?;
+            Ok(DecimalAsset {
+                info: deposit.info.clone(),
+                amount: Decimal256::with_precision(*pool, precision)?,
+            })
+        })
+        .collect::<StdResult<Vec<_>>>()?;
+
     let total_share = query_native_supply(&deps.querier, &config.pair_info.liquidity_token)?;
 
     let auto_stake = auto_stake.unwrap_or(false);
@@ -425,17 +437,6 @@ pub fn provide_liquidity(
         auto_stake,
     )?);
 
-    let pools = pools
-        .into_iter()
-        .map(|(info, amount)| {
-            let precision = get_precision(deps.storage, &info)?;
-            Ok(DecimalAsset {
-                info,
-                amount: Decimal256::with_precision(amount, precision)?,
-            })
-        })
-        .collect::<StdResult<Vec<_>>>()?;
-
     if accumulate_prices(deps.storage, &env, &mut config, &pools)? {
         CONFIG.save(deps.storage, &config)?;
     }
-- 
2.43.0


From 613fe6665778e2ac03562da46f1889ec1228fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 09/14] fix: moving average of trades drops the observation
 which is replaced

---
 contracts/pair_concentrated/src/utils.rs | 4 ++--
 contracts/pair_stable/src/utils.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index 4a64a15..8a5e274 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -69,9 +69,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // The new observation replaces the oldest one, which is at head once the buffer is full
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
diff --git a/contracts/pair_stable/src/utils.rs b/contracts/pair_stable/src/utils.rs
index 71341e2..48db6ae 100644
--- a/contracts/pair_stable/src/utils.rs
+++ b/contracts/pair_stable/src/utils.rs
@@ -346,9 +346,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // The new observation replaces the oldest one, which is at head once the buffer is full
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
-- 
2.43.0


From 9f8dcf5554ef13dbaaf82aaec5ee6c94cd34b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 10/14] fix: observation of a block is saved only after all of
 its trades

---
 contracts/pair_concentrated/src/utils.rs | 3 ++-
 contracts/pair_stable/src/utils.rs       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index 8a5e274..d42a523 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -68,7 +68,8 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         let new_observation;
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
-            if last_obs.ts < precommit_ts {
+            // or if further trades of the current block still add to it
+            if last_obs.ts < precommit_ts && precommit_ts < env.block.time.seconds() {
                 // The new observation replaces the oldest one, which is at head once the buffer is full
                 let count = buffer.capacity();
                 if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
diff --git a/contracts/pair_stable/src/utils.rs b/contracts/pair_stable/src/utils.rs
index 48db6ae..a4cf0fc 100644
--- a/contracts/pair_stable/src/utils.rs
+++ b/contracts/pair_stable/src/utils.rs
@@ -345,7 +345,8 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         let new_observation;
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
-            if last_obs.ts < precommit_ts {
+            // or if further trades of the current block still add to it
+            if last_obs.ts < precommit_ts && precommit_ts < env.block.time.seconds() {
                 // The new observation replaces the oldest one, which is at head once the buffer is full
                 let count = buffer.capacity();
                 if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
-- 
2.43.0


From dd92c7e32fb5f809fe7760aafdd97ee35032c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 11/14] fix: concentrated pool honours min_assets_to_receive on
 withdrawal

---
 contracts/pair_concentrated/src/contract.rs | 11 +++-
 contracts/pair_concentrated/src/error.rs    | 10 ++++
 contracts/pair_concentrated/src/utils.rs    | 61 ++++++++++++++++++++-
 3 files changed, 79 insertions(+), 3 deletions(-)

diff --git a/contracts/pair_concentrated/src/contract.rs b/contracts/pair_concentrated/src/contract.rs
index 3d5dfb6..f71a3c1 100644
--- a/contracts/pair_concentrated/src/contract.rs
+++ b/contracts/pair_concentrated/src/contract.rs
@@ -48,7 +48,8 @@ use astroport_pcl_common::{calc_d, get_xcp};
 use crate::error::ContractError;
 use crate::state::{BALANCES, CONFIG, OBSERVATIONS, OWNERSHIP_PROPOSAL};
 use crate::utils::{
-    accumulate_swap_sizes, calculate_shares, get_assets_with_precision, query_pools,
+    accumulate_swap_sizes, calculate_shares, ensure_min_assets_to_receive,
+    get_assets_with_precision, query_pools,
 };
 
 /// Contract name that is used for migration.
@@ -366,7 +367,10 @@ pub fn execute(
             })
             .map_err(Into::into)
         }
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -557,6 +561,7 @@ fn withdraw_liquidity(
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -610,6 +615,8 @@ fn withdraw_liquidity(
         })
         .collect::<StdResult<Vec<_>>>()?;
 
+    ensure_min_assets_to_receive(&config, &refund_assets, min_assets_to_receive)?;
+
     messages.extend(
         refund_assets
             .iter()
diff --git a/contracts/pair_concentrated/src/error.rs b/contracts/pair_concentrated/src/error.rs
index b4e0cd5..761dead 100644
--- a/contracts/pair_concentrated/src/error.rs
+++ b/contracts/pair_concentrated/src/error.rs
@@ -70,6 +70,16 @@ pub enum ContractError {
     #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
     ProvideSlippageViolation(Uint128, Uint128),
 
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
+
     #[error("Operation is not supported")]
     NotSupported {},
 }
diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index d42a523..f79d23d 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -4,7 +4,8 @@ use astroport_pcl_common::utils::{
 };
 use astroport_pcl_common::{calc_d, get_xcp};
 use cosmwasm_std::{
-    Addr, Decimal, Decimal256, Deps, Env, QuerierWrapper, StdError, StdResult, Storage, Uint128,
+    ensure, ensure_eq, Addr, Decimal, Decimal256, Deps, Env, QuerierWrapper, StdError, StdResult,
+    Storage, Uint128,
 };
 
 use astroport::asset::{Asset, Decimal256Ext, DecimalAsset, MINIMUM_LIQUIDITY_AMOUNT};
@@ -54,6 +55,64 @@ pub(crate) fn query_pools(
         .collect()
 }
 
+/// Checks that withdrawn assets are not less than the amounts required by a user.
+pub(crate) fn ensure_min_assets_to_receive(
+    config: &Config,
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(mut min_assets_to_receive) = min_assets_to_receive {
+        ensure_eq!(
+            min_assets_to_receive.len(),
+            refund_assets.len(),
+            ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets_to_receive.len(),
+            }
+        );
+
+        // Ensure unique
+        ensure!(
+            min_assets_to_receive
+                .iter()
+                .map(|asset| &asset.info)
+                .all_unique(),
+            StdError::generic_err("Duplicated assets in min_assets_to_receive")
+        );
+
+        for asset in &min_assets_to_receive {
+            ensure!(
+                config.pair_info.asset_infos.contains(&asset.info),
+                ContractError::InvalidAsset(asset.info.to_string())
+            );
+        }
+
+        if refund_assets[0].info.ne(&min_assets_to_receive[0].info) {
+            min_assets_to_receive.swap(0, 1)
+        }
+
+        ensure!(
+            refund_assets[0].amount >= min_assets_to_receive[0].amount,
+            ContractError::WithdrawSlippageViolation {
+                asset_name: refund_assets[0].info.to_string(),
+                received: refund_assets[0].amount,
+                expected: min_assets_to_receive[0].amount,
+            }
+        );
+
+        ensure!(
+            refund_assets[1].amount >= min_assets_to_receive[1].amount,
+            ContractError::WithdrawSlippageViolation {
+                asset_name: refund_assets[1].info.to_string(),
+                received: refund_assets[1].amount,
+                expected: min_assets_to_receive[1].amount,
+            }
+        );
+    }
+
+    Ok(())
+}
+
 /// Calculate and save price moving average
 pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResult<()> {
     if let Some(PrecommitObservation {
-- 
2.43.0


From be9e116282295229a23b110115ba4a568929c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 12/14] fix: mid_fee of a concentrated pool cannot be raised to
 out_fee

---
 packages/astroport_pcl_common/src/state.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 95d67cd..01a1385 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -98,17 +98,20 @@ impl PoolParams {
 
         if let Some(out_fee) = update_params.out_fee {
             validate_param("out_fee", out_fee, MIN_FEE, MAX_FEE)?;
-            if out_fee <= self.mid_fee {
-                return Err(StdError::generic_err(format!(
-                    "out_fee {out_fee} must be more than mid_fee {}",
-                    self.mid_fee
-                ))
-                .into());
-            }
             self.out_fee = out_fee;
             attributes.push(attr("out_fee", out_fee.to_string()));
         }
 
+        if (update_params.mid_fee.is_some() || update_params.out_fee.is_some())
+            && self.out_fee <= self.mid_fee
+        {
+            return Err(StdError::generic_err(format!(
+                "out_fee {} must be more than mid_fee {}",
+                self.out_fee, self.mid_fee
+            ))
+            .into());
+        }
+
         if let Some(fee_gamma) = update_params.fee_gamma {
             validate_param("fee_gamma", fee_gamma, FEE_GAMMA_MIN, FEE_GAMMA_MAX)?;
             self.fee_gamma = fee_gamma;
-- 
2.43.0


From 8d625328cd3f8deecc800e7a86270dc132487469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 13/14] fix: a pool whose profit fell below one during a ramp
 can still be traded

update_price subtracted one from xcp_profit_real and xcp_profit. Both can be below one while amp and
gamma are ramping; the subtraction then panicked and blocked swaps and deposits whenever the oracle
price was far enough from the price scale.
---
 packages/astroport_pcl_common/src/state.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 01a1385..877dcda 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -359,9 +359,10 @@ impl PoolState {
             .max(norm * Decimal256::from_ratio(1u8, 10u8));
 
         if norm >= scale_delta
-            && price_state.xcp_profit_real - Decimal256::one()
-                > (xcp_profit - Decimal256::one()) / TWO
-                    + Decimal256::from(pool_params.repeg_profit_threshold)
+            && TWO * price_state.xcp_profit_real
+                > xcp_profit
+                    + Decimal256::one()
+                    + TWO * Decimal256::from(pool_params.repeg_profit_threshold)
         {
             let numerator = price_state.price_scale * (norm - scale_delta)
                 + scale_delta * price_state.oracle_price;
-- 
2.43.0


From d57d779b20fcf55af04aa025882a95623e3c0386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 14/14] fix: first trade after a ramp is not blocked by the xcp
 change the ramp made

If nobody traded between the last price update and the end of the ramp, xcp_profit_real was compared
with a value computed with the old amp and gamma, and every swap and imbalanced deposit failed with
'XCP profit real value dropped' until somebody withdrew liquidity.
---
 packages/astroport_pcl_common/src/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 877dcda..23ea456 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -322,6 +322,10 @@ impl PoolState {
         let block_time = env.block.time.seconds();
         let price_state = &mut self.price_state;
 
+        // The first price update after ramping has to absorb xcp changes caused by ramping
+        let ramping =
+            block_time < self.future_time || price_state.last_price_update < self.future_time;
+
         if price_state.last_price_update < block_time {
             let arg = Decimal256::from_ratio(
                 block_time - price_state.last_price_update,
@@ -341,7 +345,7 @@ impl PoolState {
             let xcp_profit_real = xcp / total_lp;
 
             // If xcp dropped and no ramping happens then this swap makes loss
-            if xcp_profit_real < price_state.xcp_profit_real && block_time >= self.future_time {
+            if xcp_profit_real < price_state.xcp_profit_real && !ramping {
                 return Err(StdError::generic_err(
                     "XCP profit real value dropped. This action makes loss",
                 ));
-- 
2.43.0

