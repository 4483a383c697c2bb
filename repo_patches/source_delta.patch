From fc42f551c6f8bf976b6e4da1c8ff91a7b8c2d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 01/17] fix: stake: rewards of a stake newer than an unclaimed
 distribution no longer trap

A stake bonded after a distribution the user has not claimed yet made every claim, and every
rewards query, fail with an arithmetic underflow, locking all of that user's rewards.
---
 contracts/stake/src/distribution.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/stake/src/distribution.rs b/contracts/stake/src/distribution.rs
index 4587ce7..911ebfb 100644
--- a/contracts/stake/src/distribution.rs
+++ b/contracts/stake/src/distribution.rs
@@ -101,7 +101,7 @@ pub fn calculate_pending_rewards(
                         // Calculate the user's share of the total staked amount at the time
                         let user_share = stake.stake as u128 * daily_reward / total_staked;
                         let stake_age_days =
-                            (staking_reward_day - stake.stake_timestamp) / SECONDS_PER_DAY;
+                            staking_reward_day.saturating_sub(stake.stake_timestamp) / SECONDS_PER_DAY;
                         let multiplier = if stake_age_days >= 60 {
                             Decimal::one()
                         } else {
-- 
2.43.0


From 64c26006e155c68bdbec6c40c372c9d0f8d5aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 02/17] fix: pool_stable: update_config requires the admin's
 authorization

Anyone could name the admin's address as the sender and change the pool's configuration,
including its admin and its fee recipient.
---
 contracts/pool_stable/src/contract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 6948dd4..601c428 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -570,6 +570,7 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
         max_allowed_slippage_bps: Option<i64>,
         max_allowed_spread_bps: Option<i64>,
     ) {
+        sender.require_auth();
         if sender != utils::get_admin(&env) {
             log!(&env, "Pool Stable: UpdateConfig: Unauthorized");
             panic_with_error!(&env, ContractError::Unauthorized);
-- 
2.43.0


From 783e03a51e7d34c35f5e0411eae10fe004be3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 03/17] fix: stake: unbond pays out the rewards earned by the
 removed stake

Unbonding removed the stake that pending rewards are calculated from, so rewards already
distributed for it, but not yet withdrawn, were lost for good.
---
 contracts/stake/src/contract.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index c767a81..a80a26b 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -182,6 +182,9 @@ impl StakingTrait for Staking {
 
         let config = get_config(&env);
 
+        // rewards earned so far are calculated from the stakes still in place
+        Self::withdraw_rewards(env.clone(), sender.clone());
+
         let mut stakes = get_stakes(&env, &sender);
 
         remove_stake(&env, &mut stakes.stakes, stake_amount, stake_timestamp);
-- 
2.43.0


From 0c504e76281b97923eb3fd265de1a742cce31ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 04/17] fix: stake: distributions at one timestamp neither
 overwrite nor skip each other

A second distribution in the same ledger replaced the first one's amount (locking it), replaced
the total stake other distributions at that time are shared by (so that claims could exceed what
was distributed), and one made after a user's claim in the same ledger was never paid to that user.
---
 contracts/stake/src/contract.rs     | 22 +++++------
 contracts/stake/src/distribution.rs | 60 ++++++++++++++++++++++++++++-
 2 files changed, 68 insertions(+), 14 deletions(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index a80a26b..0aaa5f5 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -6,8 +6,8 @@ use soroban_sdk::{
 
 use crate::{
     distribution::{
-        calculate_pending_rewards, get_reward_history, get_total_staked_history,
-        save_reward_history, save_total_staked_history,
+        add_distributed_rewards, calculate_pending_rewards, get_settled_time,
+        save_last_withdrawal, save_reward_history, save_total_staked_history,
     },
     error::ContractError,
     msg::{ConfigResponse, StakedResponse, WithdrawableReward, WithdrawableRewardsResponse},
@@ -241,16 +241,13 @@ impl StakingTrait for Staking {
             panic_with_error!(&env, ContractError::DistributionNotFound);
         }
 
-        let current_timestamp = env.ledger().timestamp();
         let total_staked_amount = get_total_staked_counter(&env);
-
-        let mut total_staked_history = get_total_staked_history(&env);
-        total_staked_history.set(current_timestamp, total_staked_amount as u128);
-        save_total_staked_history(&env, total_staked_history);
-
-        let mut reward_history = get_reward_history(&env, &reward_token);
-        reward_history.set(current_timestamp, amount as u128);
-        save_reward_history(&env, &reward_token, reward_history);
+        add_distributed_rewards(
+            &env,
+            &reward_token,
+            amount as u128,
+            total_staked_amount as u128,
+        );
 
         token_contract::Client::new(&env, &reward_token).transfer(
             &sender,
@@ -282,7 +279,8 @@ impl StakingTrait for Staking {
                 &pending_reward,
             );
         }
-        stakes.last_reward_time = env.ledger().timestamp();
+        stakes.last_reward_time = get_settled_time(&env);
+        save_last_withdrawal(&env, stakes.last_reward_time);
         save_stakes(&env, &sender, &stakes);
     }
 
diff --git a/contracts/stake/src/distribution.rs b/contracts/stake/src/distribution.rs
index 911ebfb..f5cfebe 100644
--- a/contracts/stake/src/distribution.rs
+++ b/contracts/stake/src/distribution.rs
@@ -11,6 +11,8 @@ const SECONDS_PER_DAY: u64 = 24 * 60 * 60;
 pub enum DistributionDataKey {
     RewardHistory(Address),
     TotalStakedHistory,
+    // Latest point in the reward history up to which anyone has withdrawn rewards
+    LastWithdrawal,
 }
 
 pub fn save_reward_history(e: &Env, reward_token: &Address, reward_history: Map<u64, u128>) {
@@ -67,12 +69,66 @@ pub fn get_total_staked_history(e: &Env) -> Map<u64, u128> {
     total_staked_history
 }
 
+pub fn save_last_withdrawal(e: &Env, time: u64) {
+    if time > get_last_withdrawal(e) {
+        e.storage()
+            .persistent()
+            .set(&DistributionDataKey::LastWithdrawal, &time);
+        e.storage().persistent().extend_ttl(
+            &DistributionDataKey::LastWithdrawal,
+            PERSISTENT_LIFETIME_THRESHOLD,
+            PERSISTENT_BUMP_AMOUNT,
+        );
+    }
+}
+
+pub fn get_last_withdrawal(e: &Env) -> u64 {
+    e.storage()
+        .persistent()
+        .get(&DistributionDataKey::LastWithdrawal)
+        .unwrap_or(0u64)
+}
+
+/// Records a distribution at the current time. When it cannot share that point of the history,
+/// because rewards up to it were already withdrawn or the total stake it was recorded with has
+/// changed since, it goes to the next free one.
+pub fn add_distributed_rewards(e: &Env, reward_token: &Address, amount: u128, total_staked: u128) {
+    let mut total_staked_history = get_total_staked_history(e);
+    let mut reward_history = get_reward_history(e, reward_token);
+
+    let last_withdrawal = get_last_withdrawal(e);
+    let last_total = total_staked_history.keys().last().unwrap_or(0);
+    let mut time = e.ledger().timestamp().max(last_total);
+    if time <= last_withdrawal {
+        time = last_withdrawal + 1;
+    }
+    if total_staked_history
+        .get(time)
+        .map_or(false, |total| total != total_staked)
+    {
+        time += 1;
+    }
+
+    total_staked_history.set(time, total_staked);
+    save_total_staked_history(e, total_staked_history);
+
+    let distributed = reward_history.get(time).unwrap_or(0);
+    reward_history.set(time, distributed + amount);
+    save_reward_history(e, reward_token, reward_history);
+}
+
+/// The point of the reward history up to which a withdrawal made now is settled.
+pub fn get_settled_time(e: &Env) -> u64 {
+    let last_total = get_total_staked_history(e).keys().last().unwrap_or(0);
+    e.ledger().timestamp().max(last_total)
+}
+
 pub fn calculate_pending_rewards(
     env: &Env,
     reward_token: &Address,
     user_info: &BondingInfo,
 ) -> i128 {
-    let current_timestamp = env.ledger().timestamp();
+    let settled_time = get_settled_time(env);
     let last_reward_day = user_info.last_reward_time;
 
     // Load reward history and total staked history from storage
@@ -89,7 +145,7 @@ pub fn calculate_pending_rewards(
         for staking_reward_day in reward_keys
             .iter()
             .skip_while(|&day| day < first_relevant_day)
-            .take_while(|&day| day <= current_timestamp)
+            .take_while(|&day| day <= settled_time)
         {
             if let (Some(daily_reward), Some(total_staked)) = (
                 reward_history.get(staking_reward_day),
-- 
2.43.0


From bde4815f54d49492e7909d99e5d6ac94a01eabff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 05/17] fix: pool_stable: swaps are priced with one consistent
 invariant, at any realistic pool size

calc_y solved for y with the leverage A*n but took D from compute_d, whose leverage carries 18
more digits: in any pool that is not balanced the result was off the curve, so that swaps were
underpaid and small ones failed with an underflow. The powers of D also overflowed, which made
every swap fail once a pool held about ten tokens, and D itself once a side held about nine, and
Newton's method stopped up to 1e-6 of a token early. The value LP shares are issued for is
unchanged.
---
 contracts/pool_stable/src/math.rs | 46 +++++++++++++++++++------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index d0badba..300f529 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -15,10 +15,8 @@ const ITERATIONS: u8 = 64;
 const N_COINS: u128 = 2;
 /// N = 2 with DECIMAL_PRECISION (18) digits
 const N_COINS_PRECISION: u128 = 2000000000000000000;
-/// 1*10**18
-const DECIMAL_FRACTIONAL: u128 = 1_000_000_000_000_000_000;
-/// 1e-6
-const TOL: u128 = 1000000000000;
+/// Newton's method stops when a step changes the result by no more than its last digit (1e-18)
+const TOL: u128 = 1;
 
 pub fn scale_value(atomics: u128, decimal_places: u32, target_decimal_places: u32) -> u128 {
     const TEN: u128 = 10;
@@ -72,10 +70,17 @@ pub(crate) fn compute_current_amp(env: &Env, amp_params: &AmplifierParameters) -
 /// * **Equation**
 ///
 /// A * sum(x_i) * n**n + D = A * D * n**n + D**(n+1) / (n**n * prod(x_i))
+///
+/// This is the value LP shares are issued for. Its leverage carries 18 decimal digits, which makes
+/// it the (near) constant sum of the pools rather than the invariant swaps are priced with.
 pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
     let leverage = U256::from_u128(env, (amp / AMP_PRECISION as u128) * N_COINS_PRECISION);
-    let amount_a_times_coins = pools[0] * N_COINS;
-    let amount_b_times_coins = pools[1] * N_COINS;
+    solve_d(env, &leverage, pools)
+}
+
+fn solve_d(env: &Env, leverage: &U256, pools: &[u128]) -> U256 {
+    let amount_a_times_coins = U256::from_u128(env, pools[0] * N_COINS);
+    let amount_b_times_coins = U256::from_u128(env, pools[1] * N_COINS);
 
     let sum_x = U256::from_u128(env, pools[0] + pools[1]); // sum(x_i), a.k.a S
     let zero = U256::from_u128(env, 0u128);
@@ -88,13 +93,15 @@ pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
 
     // Newton's method to approximate D
     for _ in 0..ITERATIONS {
-        let d_product = d.pow(3).div(&U256::from_u128(
-            env,
-            amount_a_times_coins * amount_b_times_coins,
-        ));
+        // d**3 / (n**n * prod(x_i)), dividing early as d**3 alone may not fit
+        let d_product = d
+            .mul(&d)
+            .div(&amount_a_times_coins)
+            .mul(&d)
+            .div(&amount_b_times_coins);
         d_previous = d.clone();
-        d = calculate_step(env, &d, &leverage, &sum_x, &d_product);
-        // Equality with the precision of 1e-6
+        d = calculate_step(env, &d, leverage, &sum_x, &d_product);
+        // Equality with the precision of 1e-18
         if abs_diff(&d, &d_previous) <= U256::from_u128(env, TOL) {
             return d;
         }
@@ -154,14 +161,19 @@ pub(crate) fn calc_y(
     let n_coins = U256::from_u128(env, N_COINS);
     let new_amount = U256::from_u128(env, new_amount);
 
-    let d = compute_d(env, amp, xp);
-    let leverage = U256::from_u128(env, amp * DECIMAL_FRACTIONAL * N_COINS);
-    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128 * DECIMAL_FRACTIONAL);
+    // D has to solve the same equation, with the same leverage, as y does below
+    let d_leverage = U256::from_u128(env, (amp / AMP_PRECISION as u128) * N_COINS);
+    let d = solve_d(env, &d_leverage, xp);
+    let leverage = U256::from_u128(env, amp * N_COINS);
+    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128);
 
+    // D ** 3 * amp_prec / (new_amount * n**2 * leverage), dividing early as D ** 3 alone may not fit
     let c = d
-        .pow(3)
+        .mul(&d)
+        .div(&new_amount.mul(&n_coins))
+        .mul(&d)
         .mul(&amp_prec)
-        .div(&new_amount.mul(&n_coins.mul(&n_coins)).mul(&leverage));
+        .div(&leverage.mul(&n_coins));
 
     let b = new_amount.add(&d.mul(&amp_prec).div(&leverage));
 
-- 
2.43.0


From 738ee6544d023c4a0c7179b305fcc2cf4a7a8850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 06/17] fix: pool_stable: swaps between tokens of different
 decimals use each token's own decimals

The offered amount was scaled with the greater of the two precisions and the result was returned
in it, so that pools whose tokens differ in decimals paid out or charged amounts that are off by
powers of ten.
---
 contracts/pool_stable/src/contract.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 601c428..8f20024 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -1018,27 +1018,26 @@ pub fn compute_swap(
     let amp_parameters = get_amp(env);
     let amp = compute_current_amp(env, &amp_parameters);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_ask_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             offer_pool + offer_amount,
-            greatest_precision,
+            offer_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        ask_pool_precision,
     );
 
     let return_amount = ask_pool - new_ask_pool;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
-    let spread_amount = if offer_amount > return_amount {
-        convert_u128_to_i128(offer_amount - return_amount)
+    let offer_value = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);
+    let spread_amount = if offer_value > return_amount {
+        convert_u128_to_i128(offer_value - return_amount)
     } else {
         // saturating sub equivalent
         0
@@ -1073,29 +1072,28 @@ pub fn compute_offer_amount(
     let inv_one_minus_commission = Decimal::one() / one_minus_commission;
     let before_commission = inv_one_minus_commission * convert_u128_to_i128(ask_amount);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_offer_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             ask_pool - convert_i128_to_u128(before_commission),
-            greatest_precision,
+            ask_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        offer_pool_precision,
     );
 
     let offer_amount = new_offer_pool - offer_pool;
 
     let ask_before_commission = convert_u128_to_i128(ask_amount) * inv_one_minus_commission;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
-    let spread_amount = if offer_amount > ask_amount {
-        offer_amount - ask_amount
+    let offer_value = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);
+    let spread_amount = if offer_value > ask_amount {
+        offer_value - ask_amount
     } else {
         // saturating sub equivalent
         0
-- 
2.43.0


From 203d272c5e6e325929d53ba971f3a6ab989943ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 07/17] fix: trader: trade_token without an amount trades what
 the trader holds

It offered the admin's own balance of the token instead, which is unrelated to what the trader
contract can sell: the trade failed, or sold another amount than the available one.
---
 contracts/trader/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index 4dae3a9..093fcd3 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -149,7 +149,7 @@ impl TraderTrait for Trader {
         let amount = if let Some(amount) = amount {
             amount as i128
         } else {
-            token_client.balance(&sender)
+            token_client.balance(&env.current_contract_address())
         };
 
         let amount_swapped = lp_client.swap(
-- 
2.43.0


From 53ae4efb9bf8424a7dfbce8864636150b4f61ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 08/17] fix: pool, pool_stable: a deposit that would mint no
 shares is rejected

A deposit that is worth less than one share was taken from the provider, who received nothing for it.
---
 contracts/pool/src/contract.rs        | 9 +++++++++
 contracts/pool_stable/src/contract.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index ca9e8d6..4464c6f 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -385,6 +385,15 @@ impl LiquidityPoolTrait for LiquidityPool {
             shares - MINIMUM_LIQUIDITY_AMOUNT
         };
 
+        // a deposit too small to be worth a share would be lost to the other providers
+        if new_total_shares <= total_shares {
+            log!(
+                env,
+                "Pool: Provide Liquidity: Not enough shares to be minted!"
+            );
+            panic_with_error!(env, ContractError::NotEnoughSharesToBeMinted);
+        }
+
         utils::mint_shares(
             &env,
             &config.share_token,
diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 8f20024..f99e4ea 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -402,6 +402,15 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
             )
         };
 
+        // a deposit too small to be worth a share would be lost to the other providers
+        if shares == 0 {
+            log!(
+                &env,
+                "Pool Stable: ProvideLiquidity: Liquidity amount is too low"
+            );
+            panic_with_error!(&env, ContractError::LowLiquidity);
+        }
+
         if let Some(min_shares) = min_shares_to_receive {
             if shares < min_shares {
                 log!(
-- 
2.43.0


From d1212195c1c0e27d2ea8967f5f71f96842ff77d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 09/17] fix: multihop: reverse quotes over stable pools are
 asked for the token offered

---
 contracts/multihop/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/multihop/src/contract.rs b/contracts/multihop/src/contract.rs
index dcd39a6..876eaee 100644
--- a/contracts/multihop/src/contract.rs
+++ b/contracts/multihop/src/contract.rs
@@ -266,7 +266,7 @@ impl MultihopTrait for Multihop {
                 PoolType::Stable => {
                     let lp_client = stable_pool::Client::new(&env, &pool_address);
                     let simulated_reverse_swap =
-                        lp_client.simulate_reverse_swap(&op.ask_asset, &next_ask_amount);
+                        lp_client.simulate_reverse_swap(&op.offer_asset, &next_ask_amount);
 
                     let token_symbol = token_contract::Client::new(&env, &op.ask_asset).symbol();
 
-- 
2.43.0


From 8c3b785d91dfba552a2c450216453359fa54f74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 10/17] fix: pool_stable: deposits of more than about 170
 tokens into a running pool no longer overflow

The growth of the invariant, which has 18 decimals, was multiplied by another 10^18 in 128 bits.
---
 contracts/pool_stable/src/contract.rs | 29 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index f99e4ea..a8bbf89 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -3,7 +3,7 @@ use phoenix::{
     utils::{convert_i128_to_u128, convert_u128_to_i128, LiquidityPoolInitInfo},
 };
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, BytesN, Env, String,
+    contract, contractimpl, contractmeta, log, panic_with_error, Address, BytesN, Env, String, U256,
 };
 
 use crate::{
@@ -389,17 +389,22 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
             .expect("Pool stable: provide_liquidity: conversion to u128 failed");
 
             // Calculate the proportion of the change in invariant
-            let invariant_delta = convert_u128_to_i128(
-                new_invariant
-                    .to_u128()
-                    .expect("Pool stable: provide_liquidity: conversion to u128 failed")
-                    - initial_invariant,
-            );
-
-            let initial_invariant = convert_u128_to_i128(initial_invariant);
-            convert_i128_to_u128(
-                total_shares * (Decimal::new(invariant_delta) / Decimal::new(initial_invariant)),
-            )
+            let invariant_delta = new_invariant
+                .to_u128()
+                .expect("Pool stable: provide_liquidity: conversion to u128 failed")
+                - initial_invariant;
+
+            // shares grow by the same ratio, which has 18 decimals; its terms have 18 as well, so that
+            // their product does not fit 128 bits for deposits of more than about 170 tokens
+            let one = U256::from_u128(&env, 1_000_000_000_000_000_000u128);
+            let ratio = U256::from_u128(&env, invariant_delta)
+                .mul(&one)
+                .div(&U256::from_u128(&env, initial_invariant));
+            U256::from_u128(&env, convert_i128_to_u128(total_shares))
+                .mul(&ratio)
+                .div(&one)
+                .to_u128()
+                .expect("Pool stable: provide_liquidity: conversion to u128 failed")
         };
 
         // a deposit too small to be worth a share would be lost to the other providers
-- 
2.43.0


From e189f65286c8fdd2deb4f3f447a3723829af7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 11/17] fix: trader: trade_token authorizes the pool to collect
 the tokens traded

The pool transfers the offered tokens from the trader, so the trader is not the direct caller of the
token and the transfer was refused: outside of tests that mock every authorization no trade could go
through.
---
 contracts/trader/src/contract.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index 093fcd3..d650c0b 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -1,6 +1,8 @@
 use phoenix::ttl::{INSTANCE_BUMP_AMOUNT, INSTANCE_LIFETIME_THRESHOLD};
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, Env, String,
+    auth::{ContractContext, InvokerContractAuthEntry, SubContractInvocation},
+    contract, contractimpl, contractmeta, log, panic_with_error, vec, Address, Env, IntoVal,
+    String, Symbol,
 };
 
 use crate::{
@@ -152,6 +154,24 @@ impl TraderTrait for Trader {
             token_client.balance(&env.current_contract_address())
         };
 
+        // the pool, not the trader, calls the token: allow it to collect exactly what is traded
+        env.authorize_as_current_contract(vec![
+            &env,
+            InvokerContractAuthEntry::Contract(SubContractInvocation {
+                context: ContractContext {
+                    contract: token_to_swap.clone(),
+                    fn_name: Symbol::new(&env, "transfer"),
+                    args: (
+                        env.current_contract_address(),
+                        liquidity_pool.clone(),
+                        amount,
+                    )
+                        .into_val(&env),
+                },
+                sub_invocations: vec![&env],
+            }),
+        ]);
+
         let amount_swapped = lp_client.swap(
             &env.current_contract_address(),
             &token_to_swap,
-- 
2.43.0


From 1fa13fe269d29506ab4f33595ff1869055e7b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 12/17] fix: pool: swaps too small to have a spread no longer
 trap

The return amount is rounded up, so for small offers it could exceed the expected amount and the
unsigned difference of the two trapped: about half of all swaps below sqrt(reserve) were refused.
---
 contracts/pool/src/contract.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index 4464c6f..aac64dd 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -1168,10 +1168,15 @@ pub fn compute_swap(
     let return_amount =
         ask_pool_as_u256.sub(&(cp.div(&offer_pool_as_u256.add(&offer_amount_as_u256))));
     // Calculate the spread amount, representing the difference between the expected and actual swap amounts
-    let spread_amount = (offer_amount_as_u256
+    // The return amount is rounded up, for small offers it may exceed the expected amount: no spread then
+    let expected_amount = offer_amount_as_u256
         .mul(&ask_pool_as_u256)
-        .div(&offer_pool_as_u256))
-    .sub(&return_amount);
+        .div(&offer_pool_as_u256);
+    let spread_amount = if expected_amount > return_amount {
+        expected_amount.sub(&return_amount)
+    } else {
+        U256::from_u32(env, 0)
+    };
 
     let decimal_fractional = U256::from_u128(env, 1_000_000_000_000_000_000u128);
     let commission_amount = return_amount
-- 
2.43.0


From d7a92f7f184c4889c4b00c78e24b583ea9c20383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 13/17] fix: stake_rewards: a funding that starts later is
 streamed for its whole duration

The end of the stream was counted from the current time instead of its
start.  Funds due to start later were streamed in less time than asked
for, all at once, or, combined with a running stream, not at all while
that curve was in force.
---
 contracts/stake_rewards/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 3c2e1c8..b6b8927 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -375,7 +375,7 @@ impl StakingRewardsTrait for StakingRewards {
         let reward_token_client = token_contract::Client::new(&env, &config.reward_token);
         reward_token_client.transfer(&admin, &env.current_contract_address(), &token_amount);
 
-        let end_time = current_time + distribution_duration;
+        let end_time = start_time + distribution_duration;
         // define a distribution curve starting at start_time with token_amount of tokens
         // and ending at end_time with 0 tokens
         let new_reward_distribution = Curve::saturating_linear(
-- 
2.43.0


From bd99d6d373f7d7fee35fd78f6c43ac1e88a1b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 14/17] fix: stake_rewards: distribute_rewards no longer traps
 after overlapping fundings

The curve of two combined streams can be a unit above the sum of its
parts, so that shortly after funding there was less to distribute than
nothing and the subtraction trapped.
---
 contracts/stake_rewards/src/contract.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index b6b8927..a40f509 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -258,7 +258,10 @@ impl StakingRewardsTrait for StakingRewards {
         // Calculate how much we have received since the last time Distributed was called,
         // including only the reward config amount that is eligible for distribution.
         // This is the amount we will distribute to all mem
-        let amount = undistributed_rewards - withdrawable - curve.value(env.ledger().timestamp());
+        // A combined curve rounds differently than its parts and may hold back a unit that was
+        // already distributed; then there is nothing new to distribute yet.
+        let amount = (undistributed_rewards - withdrawable)
+            .saturating_sub(curve.value(env.ledger().timestamp()));
 
         if amount == 0 {
             return;
-- 
2.43.0


From c4ddead2d4aa7725774b53f74d8a44e6bd008b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 15/17] fix: stake_rewards: a funding without a duration is
 rejected

Its curve divides by zero when it is evaluated at its start, and
distribute_rewards trapped.
---
 contracts/stake_rewards/src/contract.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index a40f509..5bcf8a8 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -389,7 +389,10 @@ impl StakingRewardsTrait for StakingRewards {
         // Validate the the curve locks at most the amount provided and
         // also fully unlocks all rewards sent
         let (min, max) = new_reward_distribution.range();
-        if min != 0 || max > convert_i128_to_u128(token_amount) {
+        if new_reward_distribution.validate_monotonic_decreasing().is_err()
+            || min != 0
+            || max > convert_i128_to_u128(token_amount)
+        {
             log!(
                 &env,
                 "Stake rewards: Fund distribution: Rewards validation failed"
-- 
2.43.0


From ed28bcd9aab90c83719dbedb9d2400ca1a6e2ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 16/17] fix: pool_stable: Newton's method for D ends in a
 strongly imbalanced pool

---
 contracts/pool_stable/src/math.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index 300f529..d1c8a36 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -101,8 +101,9 @@ fn solve_d(env: &Env, leverage: &U256, pools: &[u128]) -> U256 {
             .div(&amount_b_times_coins);
         d_previous = d.clone();
         d = calculate_step(env, &d, leverage, &sum_x, &d_product);
-        // Equality with the precision of 1e-18
-        if abs_diff(&d, &d_previous) <= U256::from_u128(env, TOL) {
+        // The sum d starts from is above the root, which the steps approach from there. Where the
+        // pools are far apart rounding keeps them from ever being equal, but not from turning back
+        if d >= d_previous || abs_diff(&d, &d_previous) <= U256::from_u128(env, TOL) {
             return d;
         }
     }
-- 
2.43.0


From fb50b5a67757b3b0c0c97aec395680cad6447be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 17/17] fix: check the range of the default slippage an upgrade
 of a pool sets, as initialisation does

---
 contracts/pool/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index aac64dd..393ddc7 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -593,6 +593,8 @@ impl LiquidityPoolTrait for LiquidityPool {
         let admin: Address = utils::get_admin(&env);
         admin.require_auth();
 
+        validate_bps!(new_default_slippage_bps);
+
         env.deployer().update_current_contract_wasm(new_wasm_hash);
         save_default_slippage_bps(&env, new_default_slippage_bps);
     }
-- 
2.43.0

