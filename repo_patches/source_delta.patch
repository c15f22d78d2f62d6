From 206a5bbd2d72fc4f007a7399ad17b36c375dd267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:42 +0000
Subject: [PATCH] fix: do not refuse fixed price deposits when the remaining
 supply is worth more than u64::MAX quote tokens

---
 .../src/presale_mode_handler/fixed_price_presale.rs      | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
index d8005cc..0f922f8 100644
--- a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
+++ b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
@@ -228,10 +228,11 @@ impl PresaleModeHandler for FixedPricePresaleHandler {
         let registry_remaining_base_token =
             presale_registry.presale_supply.safe_sub(total_token_sold)?;
 
-        let registry_remaining_deposit_quota: u64 = u128::from(registry_remaining_base_token)
-            .safe_mul(self.q_price)?
-            .div_ceil(SCALE_MULTIPLIER)
-            .safe_cast()?;
+        // The remaining supply may be worth more than u64::MAX quote tokens. It doesn't limit the deposit in that case.
+        let registry_remaining_deposit_quota = u128::from(registry_remaining_base_token)
+            .checked_mul(self.q_price)
+            .and_then(|q_quota| u64::try_from(q_quota.div_ceil(SCALE_MULTIPLIER)).ok())
+            .unwrap_or(u64::MAX);
 
         let personal_remaining_quota =
             escrow.get_remaining_deposit_quota(presale_registry.buyer_maximum_deposit_cap)?;
-- 
2.43.0

