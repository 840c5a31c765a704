From 3efc190dc2cf0a4e6862cca672ec74b144cf9d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 01/18] fix: apply the socialized loss to every bank of the
 bankrupt token

The loop that credits the liqee also stores the reduced deposit index on each
bank. It stopped as soon as the liqee was made whole, leaving the remaining
banks on the old index: their depositors escaped the loss until the next index
update, and claims exceeded the tokens in the vaults.
---
 programs/mango-v4/src/instructions/token_liq_bankruptcy.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
index 430b3b0..f919084 100644
--- a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
+++ b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
@@ -265,9 +265,6 @@ pub fn token_liq_bankruptcy(
                 liqee_liab_active =
                     bank.deposit_with_dusting(liqee_liab, amount_for_bank, now_ts)?;
                 amount_to_credit -= amount_for_bank;
-                if amount_to_credit <= 0 {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From dc31ba0a82221d657b793deb15a08d4ea652041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 02/18] fix: scale the deposit weight at the same price before
 and after a balance change

---
 programs/mango-v4/src/health/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/health/cache.rs b/programs/mango-v4/src/health/cache.rs
index 5c92525..447dedd 100644
--- a/programs/mango-v4/src/health/cache.rs
+++ b/programs/mango-v4/src/health/cache.rs
@@ -855,7 +855,7 @@ impl HealthCache {
         // Note: resetting the weights here assumes that the change has been applied to
         // the passed in bank already
         entry.init_scaled_asset_weight =
-            bank.scaled_init_asset_weight(entry.prices.asset(HealthType::Init));
+            bank.scaled_init_asset_weight(entry.prices.liab(HealthType::Init));
         entry.init_scaled_liab_weight =
             bank.scaled_init_liab_weight(entry.prices.liab(HealthType::Init));
 
-- 
2.43.0


From 053f3bdbd268da9fbef7a7a80154cf0ce1a174d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 03/18] fix: count origination fees in the health after a
 serum3 force cancel

---
 .../serum3_liq_force_cancel_orders.rs          | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/programs/mango-v4/src/instructions/serum3_liq_force_cancel_orders.rs b/programs/mango-v4/src/instructions/serum3_liq_force_cancel_orders.rs
index 269698c..fb3477c 100644
--- a/programs/mango-v4/src/instructions/serum3_liq_force_cancel_orders.rs
+++ b/programs/mango-v4/src/instructions/serum3_liq_force_cancel_orders.rs
@@ -86,6 +86,12 @@ pub fn serum3_liq_force_cancel_orders(
         let mut account = ctx.accounts.account.load_full_mut()?;
         let mut base_bank = ctx.accounts.base_bank.load_mut()?;
         let mut quote_bank = ctx.accounts.quote_bank.load_mut()?;
+        let base_native = account
+            .token_position(base_bank.token_index)?
+            .native(&base_bank);
+        let quote_native = account
+            .token_position(quote_bank.token_index)?
+            .native(&quote_bank);
         charge_loan_origination_fees(
             &ctx.accounts.group.key(),
             &ctx.accounts.account.key(),
@@ -98,6 +104,18 @@ pub fn serum3_liq_force_cancel_orders(
             None,
         )?;
 
+        // the fees reduce the balances the health cache was created from
+        let base_change = account
+            .token_position(base_bank.token_index)?
+            .native(&base_bank)
+            - base_native;
+        let quote_change = account
+            .token_position(quote_bank.token_index)?
+            .native(&quote_bank)
+            - quote_native;
+        health_cache.adjust_token_balance(&base_bank, base_change)?;
+        health_cache.adjust_token_balance(&quote_bank, quote_change)?;
+
         before_oo
     };
 
-- 
2.43.0


From 19382ab5c8ba7eb557c356c5bdb7637f83a33ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 04/18] fix: settle funding before force closing perp positions

---
 .../mango-v4/src/instructions/perp_force_close_position.rs    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/mango-v4/src/instructions/perp_force_close_position.rs b/programs/mango-v4/src/instructions/perp_force_close_position.rs
index 1f4aa13..93ee6b6 100644
--- a/programs/mango-v4/src/instructions/perp_force_close_position.rs
+++ b/programs/mango-v4/src/instructions/perp_force_close_position.rs
@@ -29,6 +29,10 @@ pub fn perp_force_close_position(ctx: Context<PerpForceClosePosition>) -> Result
         MangoError::SomeError
     );
 
+    // Funding that accrued on the current base positions must be paid before they shrink
+    account_a_perp_position.settle_funding(&perp_market);
+    account_b_perp_position.settle_funding(&perp_market);
+
     let base_transfer = account_a_perp_position
         .base_position_lots()
         .min(account_b_perp_position.base_position_lots().abs())
-- 
2.43.0


From 6bf5764170bccc417a20ff5312c21909c4ac282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 05/18] fix: use the current settle window when settling perp
 fees

---
 programs/mango-v4/src/instructions/perp_settle_fees.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/mango-v4/src/instructions/perp_settle_fees.rs b/programs/mango-v4/src/instructions/perp_settle_fees.rs
index 87449f5..9ac01ad 100644
--- a/programs/mango-v4/src/instructions/perp_settle_fees.rs
+++ b/programs/mango-v4/src/instructions/perp_settle_fees.rs
@@ -50,6 +50,11 @@ pub fn perp_settle_fees(ctx: Context<PerpSettleFees>, max_settle_amount: u64) ->
     // Calculate PnL
     let pnl = perp_position.unsettled_pnl(&perp_market, oracle_price)?;
 
+    // Apply the settle limit of the current window
+    perp_position.update_settle_limit(
+        &perp_market,
+        Clock::get()?.unix_timestamp.try_into().unwrap(),
+    );
     let settleable_pnl = perp_position.apply_pnl_settle_limit(&perp_market, pnl);
 
     if !settleable_pnl.is_negative() || !perp_market.fees_accrued.is_positive() {
-- 
2.43.0


From 1c7167085d850e0697d1198bc2811dd2294de986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 06/18] fix: reduce enough base lots when liquidating a barely
 negative perp pnl

---
 .../src/instructions/perp_liq_base_or_positive_pnl.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/instructions/perp_liq_base_or_positive_pnl.rs b/programs/mango-v4/src/instructions/perp_liq_base_or_positive_pnl.rs
index 54d1916..5ea174d 100644
--- a/programs/mango-v4/src/instructions/perp_liq_base_or_positive_pnl.rs
+++ b/programs/mango-v4/src/instructions/perp_liq_base_or_positive_pnl.rs
@@ -370,9 +370,16 @@ pub(crate) fn liquidation_action(
         let max_settle_token = max_settle_token_for_health.min(uhupnl_limit);
 
         // How many lots to transfer?
-        let base_lots = (max_settle_token / expected_settle_token_per_lot)
+        let mut base_lots = (max_settle_token / expected_settle_token_per_lot)
             .ceil() // overshoot to aim for init_health >= 0
-            .to_num::<i64>()
+            .to_num::<i64>();
+        // The division rounds down before the ceil(): don't stop just short of the target. Otherwise
+        // a barely negative uhupnl would stay negative and block all later steps.
+        if I80F48::from(base_lots).saturating_mul(expected_settle_token_per_lot) < max_settle_token
+        {
+            base_lots += 1;
+        }
+        let base_lots = base_lots
             .min(liqee_base_lots.abs() - base_reduction)
             .min(max_base_transfer.abs() - base_reduction)
             .max(0);
-- 
2.43.0


From c667ae450da8497c65bc4cff789df8707d6ae48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 07/18] fix: value perp quote positions at their settle token's
 price in assets_and_liabs

perp_info.settle_token_index is a token index, not an index into the
account's token_infos. Depending on the order of the account's token
positions the wrong token's price was used, or the lookup panicked, so
token_charge_collateral_fees charged accounts below its threshold,
skipped others or could not be called at all.
---
 programs/mango-v4/src/health/cache.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/programs/mango-v4/src/health/cache.rs b/programs/mango-v4/src/health/cache.rs
index 447dedd..80f5d93 100644
--- a/programs/mango-v4/src/health/cache.rs
+++ b/programs/mango-v4/src/health/cache.rs
@@ -773,9 +773,10 @@ impl HealthCache {
         }
 
         for perp_info in self.perp_infos.iter() {
-            let quote_price = self.token_infos[perp_info.settle_token_index as usize]
-                .prices
-                .oracle;
+            let settle_token_info_index = self
+                .token_info_index(perp_info.settle_token_index)
+                .unwrap();
+            let quote_price = self.token_infos[settle_token_info_index].prices.oracle;
             let quote_position_value = perp_info.quote * quote_price;
             if perp_info.quote.is_negative() {
                 liabs -= quote_position_value;
-- 
2.43.0


From 593d89f084c5396d09bcbf8049657f7ae8ddce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 08/18] fix: copy the fallback oracle when adding a bank to a
 token

---
 programs/mango-v4/src/state/bank.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/bank.rs b/programs/mango-v4/src/state/bank.rs
index 827f8ca..221f12e 100644
--- a/programs/mango-v4/src/state/bank.rs
+++ b/programs/mango-v4/src/state/bank.rs
@@ -377,7 +377,7 @@ impl Bank {
             maint_weight_shift_duration_inv: existing_bank.maint_weight_shift_duration_inv,
             maint_weight_shift_asset_target: existing_bank.maint_weight_shift_asset_target,
             maint_weight_shift_liab_target: existing_bank.maint_weight_shift_liab_target,
-            fallback_oracle: existing_bank.oracle,
+            fallback_oracle: existing_bank.fallback_oracle,
             deposit_limit: existing_bank.deposit_limit,
             zero_util_rate: existing_bank.zero_util_rate,
             platform_liquidation_fee: existing_bank.platform_liquidation_fee,
-- 
2.43.0


From 88d683c8e2b398d979138404b9351a13eda1f753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:41 +0000
Subject: [PATCH 09/18] fix: check the DAO account's freeze in
 account_buyback_fees_with_mngo

The operational constraint on dao_account repeated the one on account, so
fees and mngo kept moving in and out of a frozen DAO account.
---
 .../mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs b/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
index 6b28381..b6362fa 100644
--- a/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
+++ b/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
@@ -22,7 +22,7 @@ pub struct AccountBuybackFeesWithMngo<'info> {
     #[account(
         mut,
         has_one = group,
-        constraint = account.load()?.is_operational() @ MangoError::AccountIsFrozen,
+        constraint = dao_account.load()?.is_operational() @ MangoError::AccountIsFrozen,
         address = group.load()?.buyback_fees_swap_mango_account
     )]
     pub dao_account: AccountLoader<'info, MangoAccountFixed>,
-- 
2.43.0


From c7faccc22a0487ef6374c424d6aa9a93b3570e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:21 +0000
Subject: [PATCH 10/18] fix: weigh every oracle price by the same time in the
 stable price's delay average

StablePriceModel::update() limited the time a price contributes to the accumulated price but added the unlimited
time to the divisor: after any update gap of more than ten minutes the average came out too low, so the delay price
sank although the oracle price had not moved.
---
 programs/mango-v4/src/state/stable_price.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/stable_price.rs b/programs/mango-v4/src/state/stable_price.rs
index c70caa1..77999b9 100644
--- a/programs/mango-v4/src/state/stable_price.rs
+++ b/programs/mango-v4/src/state/stable_price.rs
@@ -133,7 +133,7 @@ impl StablePriceModel {
         //
         // Update delay price
         //
-        self.delay_accumulator_time += dt as u32;
+        self.delay_accumulator_time += dt_limited as u32;
         self.delay_accumulator_price += oracle_price * dt_limited;
 
         let delay_interval_index = self.delay_interval_index(now_ts);
-- 
2.43.0


From eb8ba259cbad15bcdcd91b9de29ab0b6c64750a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:21 +0000
Subject: [PATCH 11/18] fix: express a CLMM oracle's deviation in the units of
 its price

The confidence check compares the deviation against a fraction of the price, but for Orca and Raydium pools the
quote feed's deviation was passed on without converting it by the pool's price: the check was off by that factor,
accepting arbitrarily uncertain prices for tokens worth much and refusing good ones for tokens worth little.
---
 programs/mango-v4/src/state/oracle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/state/oracle.rs b/programs/mango-v4/src/state/oracle.rs
index c7e24c7..751701c 100644
--- a/programs/mango-v4/src/state/oracle.rs
+++ b/programs/mango-v4/src/state/oracle.rs
@@ -515,7 +515,7 @@ fn oracle_state_unchecked_inner<T: KeyedAccountReader>(
             OracleState {
                 price,
                 last_update_slot: quote_oracle_state.last_update_slot,
-                deviation: quote_oracle_state.deviation,
+                deviation: clmm_price * quote_oracle_state.deviation,
                 oracle_type: OracleType::OrcaCLMM,
                 last_update_time: None,
             }
@@ -528,7 +528,7 @@ fn oracle_state_unchecked_inner<T: KeyedAccountReader>(
             OracleState {
                 price,
                 last_update_slot: quote_oracle_state.last_update_slot,
-                deviation: quote_oracle_state.deviation,
+                deviation: clmm_price * quote_oracle_state.deviation,
                 oracle_type: OracleType::RaydiumCLMM,
                 last_update_time: None,
             }
-- 
2.43.0


From 571e493fdf8f5c1d80aef91bfa729daed0cb73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:30 +0000
Subject: [PATCH 12/18] fix: value the settled pnl at the price health uses in
 perp_settle_pnl

The settle token's price was read from the primary oracle without a staleness
check, on the assumption that the health computation makes that check. Health
accepts a fallback oracle when the primary one is stale, though, so a stale
price decided whether the settler gets paid a fee.
---
 programs/mango-v4/src/instructions/perp_settle_pnl.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/programs/mango-v4/src/instructions/perp_settle_pnl.rs b/programs/mango-v4/src/instructions/perp_settle_pnl.rs
index 3e8bc79..d1fc0bc 100644
--- a/programs/mango-v4/src/instructions/perp_settle_pnl.rs
+++ b/programs/mango-v4/src/instructions/perp_settle_pnl.rs
@@ -40,6 +40,7 @@ pub fn perp_settle_pnl(ctx: Context<PerpSettlePnl>) -> Result<()> {
 
     let a_liq_end_health;
     let a_maint_health;
+    let settle_token_oracle_price;
     let b_max_settle;
     {
         let retriever =
@@ -50,6 +51,8 @@ pub fn perp_settle_pnl(ctx: Context<PerpSettlePnl>) -> Result<()> {
         let a_cache = new_health_cache(&account_a.borrow(), &retriever, now_ts)?;
         a_liq_end_health = a_cache.health(HealthType::LiquidationEnd);
         a_maint_health = a_cache.health(HealthType::Maint);
+        // The price health uses: when the primary oracle is stale that's the fallback's
+        settle_token_oracle_price = a_cache.token_info(settle_token_index)?.prices.oracle;
     };
 
     let mut settle_bank = ctx.accounts.settle_bank.load_mut()?;
@@ -67,11 +70,6 @@ pub fn perp_settle_pnl(ctx: Context<PerpSettlePnl>) -> Result<()> {
         &OracleAccountInfos::from_reader(oracle_ref),
         None, // staleness checked in health
     )?;
-    let settle_oracle_ref = &AccountInfoRef::borrow(ctx.accounts.settle_oracle.as_ref())?;
-    let settle_token_oracle_price = settle_bank.oracle_price(
-        &OracleAccountInfos::from_reader(settle_oracle_ref),
-        None, // staleness checked in health
-    )?;
 
     // Fetch perp position and pnl
     let a_perp_position = account_a.perp_position_mut(perp_market_index)?;
-- 
2.43.0


From fa1dbfef55e3f5a468e586cfb3f214551d16e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:18 +0000
Subject: [PATCH 13/18] fix: max swap: count the loan origination fee in the
 health after the swap

---
 programs/mango-v4/src/health/client.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index efc6c75..07b117a 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -41,12 +41,14 @@ impl HealthCache {
         let target_amount = amount * price;
 
         let mut source_bank = source_bank.clone();
-        source_bank.withdraw_with_fee(&mut source_position, amount, now_ts)?;
+        let loan_origination_fee = source_bank
+            .withdraw_with_fee(&mut source_position, amount, now_ts)?
+            .loan_origination_fee;
         let mut target_bank = target_bank.clone();
         target_bank.deposit(&mut target_position, target_amount, now_ts)?;
 
         let mut resulting_cache = self.clone();
-        resulting_cache.adjust_token_balance(&source_bank, -amount)?;
+        resulting_cache.adjust_token_balance(&source_bank, -(amount + loan_origination_fee))?;
         resulting_cache.adjust_token_balance(&target_bank, target_amount)?;
         Ok(resulting_cache)
     }
-- 
2.43.0


From c7a646e231e89a36eb2b35b2a1423d38f8255c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:18 +0000
Subject: [PATCH 14/18] fix: max borrow: count the fee, allow withdrawing at
 the net borrow limit, bound the search

The search's right bound left out the token's price, so there was no answer for
tokens worth less than one quote native, and wasn't right of the target with
serum reservations or perp pnl either.
---
 programs/mango-v4/src/health/client.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index 07b117a..fd72a47 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -449,11 +449,17 @@ impl HealthCache {
             let mut position = account.token_position(bank.token_index)?.clone();
 
             let mut bank = bank.clone();
-            bank.withdraw_with_fee(&mut position, amount, now_ts)?;
-            bank.check_net_borrows(token.prices.oracle)?;
+            let withdraw_result = bank.withdraw_with_fee(&mut position, amount, now_ts)?;
+            // like on chain, withdrawing deposits is ok even if the net borrow limit is used up
+            if withdraw_result.loan_amount > 0 {
+                bank.check_net_borrows(token.prices.oracle)?;
+            }
 
             let mut resulting_cache = self.clone();
-            resulting_cache.adjust_token_balance(&bank, -amount)?;
+            resulting_cache.adjust_token_balance(
+                &bank,
+                -(amount + withdraw_result.loan_origination_fee),
+            )?;
 
             Ok(resulting_cache)
         };
@@ -466,16 +472,20 @@ impl HealthCache {
 
         // At most withdraw all deposits plus enough borrows to bring health to zero
         // (ensure this works with zero asset weight)
+        // Note that this is just an estimate: withdrawing deposits can cost less health when perp
+        // pnl or serum3 reservations are involved.
         let limit = token_balance.max(I80F48::ZERO)
-            + self.health(health_type).max(I80F48::ZERO) / token.init_scaled_liab_weight;
+            + self.health(health_type).max(I80F48::ZERO) / token.liab_weighted_price(health_type);
         if limit <= 0 {
             return Ok(I80F48::ZERO);
         }
 
+        let right_bound = scan_right_until_less_than(limit, min_fn_value, fn_value_after_borrow)?;
+
         binary_search(
             I80F48::ZERO,
             target_fn(self),
-            limit,
+            right_bound,
             min_fn_value,
             I80F48::ONE,
             fn_value_after_borrow,
-- 
2.43.0


From 8ae0edf3b8f20a186a0def1e10e8f23812078f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:18 +0000
Subject: [PATCH 15/18] fix: max perp: search for the right bound instead of
 asserting on an estimate

With a stable price below the oracle price of the settle token the estimate is
too low and the assert panicked.
---
 programs/mango-v4/src/health/client.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index fd72a47..4323780 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -390,14 +390,19 @@ impl HealthCache {
                 return Ok(0);
             }
 
-            // We add 1 here because health is computed for truncated base_lots and we want to guarantee
-            // zero_health_ratio <= 0. Similarly, scale down the per-lot slope slightly for a benign
-            // overestimation that guards against rounding issues.
-            let zero_health_amount = case1_start_i80f48
+            // We add 1 here because health is computed for truncated base_lots. Similarly, scale
+            // down the per-lot slope slightly for a benign overestimation that guards against
+            // rounding issues.
+            // Note that this is just an estimate: While the trade uses up deposits of the settle
+            // token, health drops more slowly if their stable price is below the oracle price.
+            let zero_health_estimate = case1_start_i80f48
                 - start_health / (final_health_slope * base_lot_size * I80F48::from_num(0.99))
                 + I80F48::ONE;
-            let zero_health_ratio = health_ratio_after_trade_trunc(zero_health_amount)?;
-            assert!(zero_health_ratio <= 0);
+            let zero_health_amount = scan_right_until_less_than(
+                zero_health_estimate,
+                min_ratio,
+                health_ratio_after_trade_trunc,
+            )?;
 
             binary_search(
                 case1_start_i80f48,
-- 
2.43.0


From 468c9c9db47e9b70170f859e1d75ba1bbb7f8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:18 +0000
Subject: [PATCH 16/18] fix: max swap with limits: limits in the price and with
 the fee that count on chain

Also, exceeded limits produced negative amounts.
---
 programs/mango-v4/src/health/client.rs | 14 ++++++++++----
 programs/mango-v4/src/state/bank.rs    |  9 ++++-----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index 4323780..487345f 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -68,15 +68,21 @@ impl HealthCache {
             .token_position(target_bank.token_index)?
             .native(target_bank);
 
-        // net borrow limit on source
+        // net borrow limit on source, in the price and including the fee that count for it
+        // (an already exceeded limit doesn't stand in the way of withdrawing deposits)
+        let net_borrow_price = source_oracle_price.max(source_bank.stable_price());
         let available_net_borrows = source_bank
             .remaining_net_borrows_quote(source_oracle_price)
-            .saturating_div(source_oracle_price);
+            .max(I80F48::ZERO)
+            .saturating_div(net_borrow_price)
+            .saturating_div(I80F48::ONE + source_bank.loan_origination_fee_rate);
         let potential_source = source_unlimited
             .min(available_net_borrows.saturating_add(source_pos.max(I80F48::ZERO)));
 
-        // deposit limit on target
-        let available_deposits = target_bank.remaining_deposits_until_limit();
+        // deposit limit on target (even if exceeded, borrows can be repaid)
+        let available_deposits = target_bank
+            .remaining_deposits_until_limit()
+            .max(I80F48::ZERO);
         let potential_target_unlimited = potential_source.saturating_mul(price);
         let potential_target = potential_target_unlimited
             .min(available_deposits.saturating_add(-target_pos.min(I80F48::ZERO)));
diff --git a/programs/mango-v4/src/state/bank.rs b/programs/mango-v4/src/state/bank.rs
index 221f12e..f782336 100644
--- a/programs/mango-v4/src/state/bank.rs
+++ b/programs/mango-v4/src/state/bank.rs
@@ -931,16 +931,15 @@ impl Bank {
     }
 
     pub fn remaining_net_borrows_quote(&self, oracle_price: I80F48) -> I80F48 {
-        if self.net_borrows_in_window < 0 || self.net_borrow_limit_per_window_quote < 0 {
+        if self.net_borrow_limit_per_window_quote < 0 {
             return I80F48::MAX;
         }
 
+        // Negative net borrows only add to the limit
         let price = oracle_price.max(self.stable_price());
-        let net_borrows_quote = price
-            .checked_mul_int(self.net_borrows_in_window.into())
-            .unwrap();
+        let net_borrows_quote = price.saturating_mul_int(self.net_borrows_in_window.into());
 
-        I80F48::from(self.net_borrow_limit_per_window_quote) - net_borrows_quote
+        I80F48::from(self.net_borrow_limit_per_window_quote).saturating_sub(net_borrows_quote)
     }
 
     pub fn check_net_borrows(&self, oracle_price: I80F48) -> Result<()> {
-- 
2.43.0


From 763460a8a534c42bd523f44543db48cd8564a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:18 +0000
Subject: [PATCH 17/18] fix: find_maximum: don't panic on rounding noise and
 several peaks

---
 programs/mango-v4/src/health/client.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index 487345f..73d4650 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -580,6 +580,9 @@ fn binary_search(
 /// in the sense that `fun` might be constant on the maximum value for a while, but there won't be
 /// distinct maximums with non-maximal values between them.
 ///
+/// Rounding can make `fun` deviate slightly from that, and so do health ratios below zero. In these
+/// cases the result is still at least as good as the values at left and right.
+///
 /// If the maximum isn't just a single point, it returns the rightmost value.
 fn find_maximum(
     mut left: I80F48,
@@ -595,16 +598,14 @@ fn find_maximum(
     let mut mid_value = fun(mid)?;
     while (right - left) > min_step {
         //println!("it {left} {left_value}; {mid} {mid_value}; {right} {right_value}");
-        if left_value > mid_value {
+        if left_value > mid_value && left_value > right_value {
             // max must be between left and mid
-            assert!(mid_value >= right_value);
             right = mid;
             right_value = mid_value;
             mid = half * (left + mid);
             mid_value = fun(mid)?
         } else if mid_value <= right_value {
             // max must be between mid and right
-            assert!(left_value <= mid_value);
             left = mid;
             left_value = mid_value;
             mid = half * (mid + right);
@@ -614,7 +615,6 @@ fn find_maximum(
             let leftmid = half * (left + mid);
             let leftmid_value = fun(leftmid)?;
             //println!("lm {leftmid} {leftmid_value}");
-            assert!(leftmid_value >= left_value);
             if leftmid_value > mid_value {
                 // max between left and mid
                 right = mid;
@@ -627,7 +627,6 @@ fn find_maximum(
             let rightmid = half * (mid + right);
             let rightmid_value = fun(rightmid)?;
             //println!("rm {rightmid} {rightmid_value}");
-            assert!(rightmid_value >= right_value);
             if rightmid_value >= mid_value {
                 // max between mid and right
                 left = mid;
@@ -645,7 +644,7 @@ fn find_maximum(
         }
     }
 
-    if left_value > mid_value {
+    if left_value > mid_value && left_value > right_value {
         Ok((left, left_value))
     } else if mid_value > right_value {
         Ok((mid, mid_value))
-- 
2.43.0


From 70bd58efb9bcec20c03db13f5b89fe0f7a93b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:11 +0000
Subject: [PATCH 18/18] fix: client health searches: enough iterations for
 large amounts

---
 programs/mango-v4/src/health/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index 73d4650..319a9b4 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -545,7 +545,7 @@ fn binary_search(
     min_step: I80F48,
     fun: impl Fn(I80F48) -> Result<I80F48>,
 ) -> Result<I80F48> {
-    let max_iterations = 50;
+    let max_iterations = 100;
     let target_error = I80F48::from_num(0.1);
     let right_value = fun(right)?;
     require_msg!(
-- 
2.43.0

