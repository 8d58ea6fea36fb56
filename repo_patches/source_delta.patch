From ea31d9a3c4f376a44d833cf4e5d872bdf645d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 01/25] fix: deposit amount of X must not be overstated by
 rounding

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 0212fb2..53e3581 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -150,7 +150,8 @@ pub trait PoolMath {
         let rp = rp.min(rpb).max(rpa);
 
         let rpb_minus_rp = rpb.sub(rp).unwrap();
-        let rp_mul_rpb = rp.mul(rpb);
+        // round the divisor up, so that the x amount is never overstated
+        let rp_mul_rpb = rp.mul_up(rpb);
 
         // l * (rpb - rp) / (rp * rpb)
         l.mul(rpb_minus_rp).div(rp_mul_rpb)
-- 
2.43.0


From 6220b0029d8bedbca711bb553ec34f9561eeade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 02/25] fix: swap from X must not lower the price further than
 the X paid for

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 53e3581..d63f043 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -262,7 +262,7 @@ pub trait PoolMath {
             panic!("root price should not be nil");
         }
         let diff = rp_old.sub(rp_new).unwrap();
-        let old_mul_new = rp_old.mul(rp_new);
+        let old_mul_new = rp_old.mul_up(rp_new);
 
         l.mul(diff).div(old_mul_new)
     }
@@ -369,7 +369,8 @@ pub trait PoolMath {
             panic!("rp_new_from_l_dx : (dx*rp_old + l) should not be nil");
         }
 
-        let rez = numerator.div(denom);
+        // round up: the price must not fall further than the X received pays for
+        let rez = numerator.div_up(denom);
         if rez.is_negative() {
             panic!("rp_new_from_l_dx : result rp should always be positive");
         }
-- 
2.43.0


From 4440c5f39efb4e53acfdfdb3d1fb7b24e7a09f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 03/25] fix: fees start accruing to a position when it is
 opened

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 13 ++++++-------
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 11 +++++++++--
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index ef9d991..6e7f4ad 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -425,15 +425,14 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
+                // fees start accruing to the position from now on
+                old_fr_x = new_fr_x;
+                old_fr_y = new_fr_y;
+                old_hr_x = new_hr_x;
+                old_hr_y = new_hr_y;
                 self.positions.insert(
                     key,
-                    PositionState::new(
-                        liq_delta,
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                    ),
+                    PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
                 );
             }
             Some(poz) => {
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 4b13b2c..860fa73 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -373,8 +373,15 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
-                self.positions
-                    .insert(key, PositionState::new(liq_delta, 0.0, 0.0, 0.0, 0.0));
+                // fees start accruing to the position from now on
+                old_fr_x = new_fr_x;
+                old_fr_y = new_fr_y;
+                old_hr_x = new_hr_x;
+                old_hr_y = new_hr_y;
+                self.positions.insert(
+                    key,
+                    PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
+                );
             }
             Some(poz) => {
                 // get old value for feed from when position was last touched
-- 
2.43.0


From f30ea6525087099a19e367fc17f60faae5beedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 04/25] fix: accept negative fee growth readings of a range

---
 .../src/cl_pool/cl_components.rs              |  4 +--
 programs/hmmcl-sandbox/src/cl_pool/mod.rs     |  9 +++----
 .../hmmcl-sandbox/src/cl_pool_float/mod.rs    | 25 +++++++++++--------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
index fef37b5..c098152 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
@@ -196,9 +196,7 @@ impl PositionState {
         if liq.is_negative() {
             panic!("position liquidity cannot be negative");
         }
-        if fr_x.is_negative() || fr_y.is_negative() || hr_x.is_negative() || hr_y.is_negative() {
-            panic!("fee cannot be negative");
-        }
+        // growth readings can legitimately be negative (see Pool::fee_rng)
         Self {
             liq,
             fr_x,
diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 6e7f4ad..388fbea 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -382,12 +382,9 @@ impl<'a> Pool<'a> {
         assert_eq!(sum_lwr, sum_upr);
         let fg = sum_lwr;
 
-        let fee_earned = fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap();
-        if fee_earned.is_negative() {
-            panic!("fees earned cannot be negative");
-        }
-
-        fee_earned
+        // relative to when both ticks got initialized, hence possibly negative. only the growth
+        // between two readings of it is meaningful
+        fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap()
     }
 
     fn _set_position(
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 860fa73..ccbc554 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -331,14 +331,13 @@ impl<'a> Pool<'a> {
 
     fn fee_rng(&self, lower_tick: u32, upper_tick: u32, token: char, f_or_h: char) -> f64 {
         // Fees earned (per unit of liq) within a range of ticks (e.g. by a position)
-        let (f_blw_lwr, f_abv_lwr) = self.fee_below_above(lower_tick, token, f_or_h);
-        let (f_blw_upr, f_abv_upr) = self.fee_below_above(upper_tick, token, f_or_h);
+        let (f_blw_lwr, _) = self.fee_below_above(lower_tick, token, f_or_h);
+        let (_, f_abv_upr) = self.fee_below_above(upper_tick, token, f_or_h);
 
-        // retrieve fg by summing up either tuple, they should match
-        assert_eq!(f_blw_lwr + f_abv_lwr, f_blw_upr + f_abv_upr);
-        let fg = f_blw_lwr + f_abv_lwr;
-
-        fg - f_blw_lwr - f_abv_upr
+        // below + above adds up to fg for any tick, but for float rounding
+        // relative to when both ticks got initialized, hence possibly negative. only the growth
+        // between two readings of it is meaningful
+        self.glbl_fee(token, f_or_h) - f_blw_lwr - f_abv_upr
     }
 
     fn _set_position(
@@ -410,9 +409,15 @@ impl<'a> Pool<'a> {
             }
         }
         // now calulate uncollected fees to be applied
-        let (f_u_x, f_u_y) = (new_fr_x - old_fr_x, new_fr_y - old_fr_y);
-        let (h_u_x, h_u_y) = (new_hr_x - old_hr_x, new_hr_y - old_hr_y);
-        assert!(f_u_x >= 0.0 && f_u_y >= 0.0 && h_u_x >= 0.0 && h_u_y >= 0.0);
+        // fees earned cannot be negative, but for float rounding when nothing was earned
+        let (f_u_x, f_u_y) = (
+            (new_fr_x - old_fr_x).max(0.0),
+            (new_fr_y - old_fr_y).max(0.0),
+        );
+        let (h_u_x, h_u_y) = (
+            (new_hr_x - old_hr_x).max(0.0),
+            (new_hr_y - old_hr_y).max(0.0),
+        );
 
         // update tick states for lower and upper
         self.update_tick(lower_tick, liq_delta, false);
-- 
2.43.0


From 365ce285e2483c1b33e943978d6bae4f565832e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 05/25] fix: end tick of a partial fill stays on its side of
 the goal tick

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       |  8 ++++----
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 10 ++++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 388fbea..d5fa02d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -695,7 +695,8 @@ impl<'a> Pool<'a> {
             fee_x = dx.sub(dx_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick - 1);
+            // goal tick isn't crossed here: stay on it or above, and not above current tick
+            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick).min(self.glbl_tick());
             // * this loop happens only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after 'log')
 
@@ -957,9 +958,8 @@ impl<'a> Pool<'a> {
             fee_y = dy.sub(dy_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            // start seeking the goal from tick under current tick, that can be initialized
-            let seek_start = self.tick_to_possible_tick(self.glbl_tick() - 1, false);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, seek_start);
+            // goal tick isn't crossed here: stay under it, and not under current tick
+            end_t = Pool::rp_to_tick_loop(end_rp, false, self.glbl_tick()).min(goal_tick - 1);
             // * this log is take only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after log)
 
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index ccbc554..07af6ef 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -576,7 +576,10 @@ impl<'a> Pool<'a> {
             fee_x = dx - dx_max; // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            // goal tick isn't crossed here: stay on it or above, and not above current tick
+            end_t = Pool::rp_to_tick(end_rp, false)
+                .max(goal_tick)
+                .min(self.glbl_tick());
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
@@ -815,7 +818,10 @@ impl<'a> Pool<'a> {
             fee_y = dy - dy_max; // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            // goal tick isn't crossed here: stay under it, and not under current tick
+            end_t = Pool::rp_to_tick(end_rp, false)
+                .max(self.glbl_tick())
+                .min(goal_tick - 1);
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From 4e4a166d276c3caa45a10fcd28cb3ca53d60954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 06/25] fix: right limit of a swap when tick spacing is above
 one

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 1 +
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index d5fa02d..c2aab2d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -242,6 +242,7 @@ impl<'a> Pool<'a> {
 
         // get to initializable tick. we use False here to round down
         let start_tick = self.tick_to_possible_tick(start_t, false);
+        let glbl_tick = self.tick_to_possible_tick(glbl_tick, false);
 
         if start_tick == glbl_tick {
             // we've already technically crossed this tick (left-to-right) i.e.
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 07af6ef..63463c6 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -209,6 +209,7 @@ impl<'a> Pool<'a> {
 
         // get to initializable tick. we use False here to round down
         let start_tick = self.tick_to_possible_tick(start_t, false);
+        let glbl_tick = self.tick_to_possible_tick(glbl_tick, false);
 
         if start_tick == glbl_tick {
             // we've already technically crossed this tick (left-to-right) i.e.
-- 
2.43.0


From 9eafd6a7c21abb4712dbf66e3a6083fc2df0a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 07/25] fix: sign of the HMM y amount when c is one

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs       | 4 ++--
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index d63f043..497ef76 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -333,10 +333,10 @@ pub trait PoolMath {
             panic!("root-prices should not be nil");
         }
         if c.to_compute_scale().eq(one).unwrap() {
-            // l * rp_oracle * (rp_old / rp_new).ln()
+            // l * rp_oracle * (rp_new / rp_old).ln()
             let ln_rp_old = rp_old.ln().unwrap();
             let ln_rp_new = rp_new.ln().unwrap();
-            let log_of_ratio = ln_rp_old.sub(ln_rp_new).unwrap();
+            let log_of_ratio = ln_rp_new.sub(ln_rp_old).unwrap();
 
             return l.mul(rp_oracle).mul(log_of_ratio);
         } else {
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index f7dc987..e21be1d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -152,7 +152,7 @@ pub trait PoolMath {
     fn dy_from_l_drp_hmm(l: f64, rp_old: f64, rp_new: f64, c: f64, rp_oracle: f64) -> f64 {
         // chg of reserve y based of chg of price with hmm adj
         if c == 1.0 {
-            l * rp_oracle * (rp_old / rp_new).ln()
+            l * rp_oracle * (rp_new / rp_old).ln()
         } else {
             let omc = 1.0 - c; // one minus c
             l * rp_oracle.powf(c) * (rp_new.powf(omc) - rp_old.powf(omc)) / omc
-- 
2.43.0


From 61fa951a370a9d99c56bbeef9433c36c6dd9b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 08/25] fix: hmm rounding noise must not refuse a swap near the
 oracle price

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 4 ++++
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index c2aab2d..e221702 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -737,6 +737,8 @@ impl<'a> Pool<'a> {
             panic!("HMM adjstment: possibilities should have been exhausted by now");
         }
 
+        // rounding must not let the hmm curve give out more than the plain amm (tiny adjustments)
+        let done_dy = done_dy.max(done_dy_cpmm);
         hmm_adj_y = done_dy.sub(done_dy_cpmm).unwrap();
 
         if done_dy_cpmm.is_positive() {
@@ -1000,6 +1002,8 @@ impl<'a> Pool<'a> {
             panic!("HMM adjstment: possibilities should have been exhausted by now");
         }
 
+        // rounding must not let the hmm curve give out more than the plain amm (tiny adjustments)
+        let done_dx = done_dx.max(done_dx_cpmm);
         hmm_adj_x = done_dx.sub(done_dx_cpmm).unwrap();
 
         if done_dx_cpmm.is_positive() {
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 63463c6..67c68e9 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -620,6 +620,8 @@ impl<'a> Pool<'a> {
         done_dy *= 1.0 - Pool::ADJ_WHOLE_FILL;
         done_dy_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
 
+        // rounding must not let the hmm curve give out more than the plain amm (tiny adjustments)
+        let done_dy = done_dy.max(done_dy_cpmm);
         hmm_adj_y = done_dy - done_dy_cpmm;
 
         if done_dy_cpmm > 0.0 {
@@ -862,6 +864,8 @@ impl<'a> Pool<'a> {
         done_dx_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
         done_dx *= 1.0 - Pool::ADJ_WHOLE_FILL;
 
+        // rounding must not let the hmm curve give out more than the plain amm (tiny adjustments)
+        let done_dx = done_dx.max(done_dx_cpmm);
         hmm_adj_x = done_dx - done_dx_cpmm;
 
         if done_dx_cpmm > 0.0 {
-- 
2.43.0


From b6c61c835408059df11fe1e080333f7c5e51bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 09/25] fix: on-chain deposit debits whole tokens rounded up

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 3c6dbcc..f20ba70 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -286,6 +286,11 @@ pub fn handle(
         return Err(ErrorCode::DepositAmountExceeded.into());
     }
 
+    // debit whole tokens rounded up: liquidity is credited in full, so that rounding down would
+    // hand out liquidity that wasn't paid for (amounts given are whole, hence not exceeded)
+    let tokens_x_debited = x_debited.abs_up();
+    let tokens_y_debited = y_debited.abs_up();
+
     // update reserves and carry out transfers
     let seeds = &[
         POOL_STATE_SEED,
@@ -305,18 +310,18 @@ pub fn handle(
     // transfer to vault
     token::transfer(
         ctx.accounts.transfer_user_token_x_to_vault(),
-        x_debited.abs(),
+        tokens_x_debited,
     )?;
 
     // transfer to vault
     token::transfer(
         ctx.accounts.transfer_user_token_y_to_vault(),
-        y_debited.abs(),
+        tokens_y_debited,
     )?;
 
     emit!(LiquidityAdded {
-        tokens_x_transferred: x_debited.abs(),
-        tokens_y_transferred: y_debited.abs(),
+        tokens_x_transferred: tokens_x_debited,
+        tokens_y_transferred: tokens_y_debited,
         lp_tokens_minted: liquidity_delta.abs(),
     });
 
-- 
2.43.0


From 5d3f88ad17afa5c6160e057d39d6bd7a0f71b9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 10/25] fix: an empty deposit must not open a position

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 4 ++++
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index e221702..cc5974b 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -423,6 +423,10 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
+                if liq_delta.is_zero() {
+                    // nothing to provide and nothing to collect: no position to keep track of
+                    return (Self::zero(), Self::zero(), Self::zero(), Self::zero());
+                }
                 // fees start accruing to the position from now on
                 old_fr_x = new_fr_x;
                 old_fr_y = new_fr_y;
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 67c68e9..4818e01 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -373,6 +373,10 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
+                if liq_delta == 0.0 {
+                    // nothing to provide and nothing to collect: no position to keep track of
+                    return (0.0, 0.0, 0.0, 0.0);
+                }
                 // fees start accruing to the position from now on
                 old_fr_x = new_fr_x;
                 old_fr_y = new_fr_y;
-- 
2.43.0


From aee61ba5f5cee03144d2d61815d9848f05acf3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 11/25] fix: float engine must refuse an empty or inverted
 range

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 4818e01..f9dac1e 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -445,6 +445,10 @@ impl<'a> Pool<'a> {
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
         let upper_tick = self.rp_to_possible_tick(rpb, false);
+        assert!(
+            upper_tick > lower_tick,
+            "upper bound needs to be above lower bound"
+        );
         let rpa_used = Pool::tick_to_rp(lower_tick);
         let rpb_used = Pool::tick_to_rp(upper_tick);
         let rp_used = self.glbl_rp();
@@ -500,6 +504,10 @@ impl<'a> Pool<'a> {
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
         let upper_tick = self.rp_to_possible_tick(rpb, false);
+        assert!(
+            upper_tick > lower_tick,
+            "upper bound needs to be above lower bound"
+        );
         let rpa_used = Pool::tick_to_rp(lower_tick);
         let rpb_used = Pool::tick_to_rp(upper_tick);
 
-- 
2.43.0


From 1c27acadd724bdc0660f6b7f4ea9fc3f3a4fca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 12/25] fix: float rounding must not refuse a swap ending on a
 boundary

---
 .../hmmcl-sandbox/src/cl_pool_float/mod.rs    | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index f9dac1e..67e451e 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -588,20 +588,16 @@ impl<'a> Pool<'a> {
             done_dx = dx_max;
             fee_x = dx - dx_max; // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
+            // float rounding must not take price past the goal, nor back above start
+            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx)
+                .max(rp_goal)
+                .min(start_rp);
             // goal tick isn't crossed here: stay on it or above, and not above current tick
             end_t = Pool::rp_to_tick(end_rp, false)
                 .max(goal_tick)
                 .min(self.glbl_tick());
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
-
-            if end_rp > start_rp {
-                panic!("expect end_rP < start_rP when pool given X");
-            }
-            if end_rp < rp_goal {
-                panic!("dont expect end_rP go beyond rP_goal (left) when able to wholy fill dX")
-            }
         }
         // now figure out how much done_dY and hmm_adj_Y
         let mut done_dy_cpmm = Pool::dy_from_l_drp(liq, start_rp, end_rp);
@@ -832,20 +828,16 @@ impl<'a> Pool<'a> {
             done_dy = dy_max;
             fee_y = dy - dy_max; // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
+            // float rounding must not take price past the goal, nor back under start
+            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy)
+                .min(rp_goal)
+                .max(start_rp);
             // goal tick isn't crossed here: stay under it, and not under current tick
             end_t = Pool::rp_to_tick(end_rp, false)
                 .max(self.glbl_tick())
                 .min(goal_tick - 1);
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
-
-            if end_rp < start_rp {
-                panic!("expect end_rP > start_rP when pool given Y");
-            }
-            if end_rp > rp_goal {
-                panic!("dont expect end_rP go beyond rP_goal (right) when able to wholy fill dY");
-            }
         }
         // now figure out how much done_dX and hmm_adj_X
         let mut done_dx_cpmm = Pool::dx_from_l_drp(liq, start_rp, end_rp);
-- 
2.43.0


From 9bf07057a7ab3f1bfc34aa695caff98f885a025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 13/25] fix: rounding dust must not lock a liquidity provider
 in

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index cc5974b..71073e8 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -584,6 +584,17 @@ impl<'a> Pool<'a> {
         );
     }
 
+    fn round_to_reserve(amount: Decimal, reserve: Decimal) -> Decimal {
+        // rounding of earlier deposits and swaps, of however large amounts, may leave reserve
+        // short of amount by a tiny quantity. this must not lock the liquidity provider in:
+        // round amount down to the reserve in that case
+        let tiny = Decimal::new(1, 3, false).to_compute_scale();
+        if amount.sub(reserve).unwrap().lte(tiny).unwrap() {
+            return amount.min(reserve);
+        }
+        amount
+    }
+
     pub fn withdraw(&mut self, user_id: &'a str, liq: Decimal, rpa: Decimal, rpb: Decimal) {
         // interface to withdraw liquidity from pool
 
@@ -616,8 +627,8 @@ impl<'a> Pool<'a> {
 
         // round down amount withdrawn if necessary, as precation
         let adj_factor = Self::one().sub(Self::ADJ_WITHDRAWAL).unwrap();
-        x_out = x_out.mul(adj_factor);
-        y_out = y_out.mul(adj_factor);
+        x_out = Self::round_to_reserve(x_out.mul(adj_factor), self.x);
+        y_out = Self::round_to_reserve(y_out.mul(adj_factor), self.y);
 
         // add fees on top of what user will receive
         let x_sent = x_out.add(fees_x).unwrap().add(adj_x).unwrap();
-- 
2.43.0


From bc89d6b0eece64d850a1fa4a025b0d5d382e8113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 14/25] fix: deposits and withdrawals at a tick equal to the
 current tick keep its liquidity

current_tick_state was mutable: when the position starts or ends at the current
tick it is the same account as lower_/upper_tick_state, and its stale copy was
written back last.
---
 programs/hmmcl-sandbox/src/instructions/deposit.rs  | 2 +-
 programs/hmmcl-sandbox/src/instructions/withdraw.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index f20ba70..6490ac9 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -65,8 +65,8 @@ pub struct Deposit<'info> {
     )]
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
+    // read-only: this may be the same account as lower_ or upper_tick_state
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
diff --git a/programs/hmmcl-sandbox/src/instructions/withdraw.rs b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
index 4af12c6..02e916c 100644
--- a/programs/hmmcl-sandbox/src/instructions/withdraw.rs
+++ b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
@@ -67,8 +67,8 @@ pub struct Withdraw<'info> {
     )]
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
+    // read-only: this may be the same account as lower_ or upper_tick_state
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
-- 
2.43.0


From 49cb507765f9156537c7413b5bc308ea40dbe49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 15/25] fix: float rounding of the fee must not refuse a swap

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 67e451e..dbdf319 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -724,9 +724,10 @@ impl<'a> Pool<'a> {
                     end_rp = rez.end_rp();
                     cross = rez.cross();
                     hmm_adj_y = rez.send_hmm_adj();
-                    fee_x = rez.recv_fee();
+                    // float rounding must not charge more than is left of the order
+                    fee_x = rez.recv_fee().min(dx - swpd_dx - done_dx);
                     assert!(self.y + done_dy - hmm_adj_y >= 0.0);
-                    assert!(dx - swpd_dx >= done_dx + fee_x);
+                    assert!(dx - swpd_dx >= done_dx);
 
                     // update local totals
                     swpd_dx += done_dx + fee_x; // gross for input token
@@ -965,9 +966,10 @@ impl<'a> Pool<'a> {
                     end_rp = rez.end_rp();
                     cross = rez.cross();
                     hmm_adj_x = rez.send_hmm_adj();
-                    fee_y = rez.recv_fee();
+                    // float rounding must not charge more than is left of the order
+                    fee_y = rez.recv_fee().min(dy - swpd_dy - done_dy);
                     assert!(self.x + done_dx - hmm_adj_x >= 0.0);
-                    assert!(dy - swpd_dy >= done_dy + fee_y);
+                    assert!(dy - swpd_dy >= done_dy);
 
                     // update local totals
                     swpd_dx += done_dx; // net for output token
-- 
2.43.0


From 46d2bffc56641228f6e5baa8a3934677f5857330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 16/25] fix: tick found from a root price agrees with the root
 price of ticks

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 497ef76..c1bbefe 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -50,17 +50,24 @@ pub trait PoolMath {
         let m = Self::tick_base_root();
         let mut rez = m.pow(start);
         let mut x = start;
-        let result = loop {
+        loop {
             rez = rez.mul(m);
             if rez.gte(rp).unwrap() {
-                match left_to_right {
-                    true => break x.checked_add(1).unwrap(),
-                    false => break x,
-                }
+                break;
             }
             x = x.checked_add(1).unwrap();
-        };
-        result
+        }
+        // repeated multiplication drifts away from the root-price that a tick really has
+        while Self::tick_to_rp(x + 1).lt(rp).unwrap() {
+            x = x.checked_add(1).unwrap();
+        }
+        while x > start && Self::tick_to_rp(x).gte(rp).unwrap() {
+            x = x.checked_sub(1).unwrap();
+        }
+        match left_to_right {
+            true => x.checked_add(1).unwrap(),
+            false => x,
+        }
     }
 
     fn tk_to_possible_tk(tick: u128, spacing: u128, left_to_right: bool) -> u128 {
-- 
2.43.0


From 6bf72420c21cf197ce5f215d2bcdc874362c5556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 17/25] fix: float tick found from a root price agrees with the
 root price of ticks

---
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index e21be1d..d9b54bb 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -12,9 +12,17 @@ pub trait PoolMath {
 
     fn rp_to_tick(rp: f64, left_to_right: bool) -> u32 {
         let base = Self::TICK_BASE.sqrt();
+        let mut tick = rp.log(base).floor() as u32;
+        // 'log' rounds differently than the root-price that a tick really has
+        while Self::tick_to_rp(tick + 1) <= rp {
+            tick += 1;
+        }
+        while tick > 0 && Self::tick_to_rp(tick) > rp {
+            tick -= 1;
+        }
         match left_to_right {
-            true => rp.log(base).ceil() as u32,
-            false => rp.log(base).floor() as u32,
+            true if Self::tick_to_rp(tick) < rp => tick + 1,
+            _ => tick,
         }
     }
 
-- 
2.43.0


From b08222bda6e77244477c25755750e5727c267e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 18/25] fix: rounding with little liquidity must not refuse a
 swap ending on a boundary

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 71073e8..31914f2 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -710,7 +710,13 @@ impl<'a> Pool<'a> {
             done_dx = dx_max;
             fee_x = dx.sub(dx_max).unwrap(); // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
+            // rounding, with very little liquidity, must not take price past the goal
+            let new_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
+            end_rp = if new_rp.lt(rp_goal).unwrap() {
+                rp_goal
+            } else {
+                new_rp
+            };
             // goal tick isn't crossed here: stay on it or above, and not above current tick
             end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick).min(self.glbl_tick());
             // * this loop happens only once per trade if price ends in-between ticks
@@ -719,9 +725,6 @@ impl<'a> Pool<'a> {
             if end_rp.gt(start_rp).unwrap() {
                 panic!("expect end_rP < start_rP when pool given X");
             }
-            if end_rp.lt(rp_goal).unwrap() {
-                panic!("dont expect end_rP go beyond rP_goal (left) when able to wholy fill dX")
-            }
         }
         // now figure out how much done_dY ( done Y quantity) and hmm_adj_Y (hmm related fee)
         let done_dy_cpmm = Pool::dy_from_l_drp(liq, start_rp, end_rp);
@@ -975,7 +978,13 @@ impl<'a> Pool<'a> {
             done_dy = dy_max;
             fee_y = dy.sub(dy_max).unwrap(); // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
+            // rounding, with very little liquidity, must not take price past the goal
+            let new_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
+            end_rp = if new_rp.gt(rp_goal).unwrap() {
+                rp_goal
+            } else {
+                new_rp
+            };
             // goal tick isn't crossed here: stay under it, and not under current tick
             end_t = Pool::rp_to_tick_loop(end_rp, false, self.glbl_tick()).min(goal_tick - 1);
             // * this log is take only once per trade if price ends in-between ticks
@@ -984,9 +993,6 @@ impl<'a> Pool<'a> {
             if end_rp.lt(start_rp).unwrap() {
                 panic!("expect end_rP > start_rP when pool given Y");
             }
-            if end_rp.gt(rp_goal).unwrap() {
-                panic!("dont expect end_rP go beyond rP_goal (right) when able to wholy fill dY");
-            }
         }
         // now figure out how much done_dX and hmm_adj_X
         let done_dx_cpmm = Pool::dx_from_l_drp(liq, start_rp, end_rp);
-- 
2.43.0


From 623e15b04c23422c73d1d049670e2e75177ce1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 19/25] fix: float rounding must not refuse a deposit that uses
 the whole offer

---
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs | 1 +
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs     | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index d9b54bb..f872f88 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -4,6 +4,7 @@ pub trait PoolMath {
     const TICK_BASE: f64 = 1.0001;
     const ADJ_WHOLE_FILL: f64 = 1.0e-12;
     const ADJ_WITHDRAWAL: f64 = 1.0e-12;
+    const ADJ_DEPOSIT: f64 = 1.0e-12;
     const FLOOR_LIQ: bool = true;
 
     fn tick_to_rp(tick: u32) -> f64 {
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index dbdf319..e3c6abb 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -465,12 +465,15 @@ impl<'a> Pool<'a> {
 
         let x_in = Pool::x_from_l_rp_rng(liq, rp_used, rpa_used, rpb_used);
         let y_in = Pool::y_from_l_rp_rng(liq, rp_used, rpa_used, rpb_used);
-        if x_in > x {
+        if x_in > x * (1.0 + Self::ADJ_DEPOSIT) {
             panic!("used x amt cannot exceed provided amount");
         }
-        if y_in > y {
+        if y_in > y * (1.0 + Self::ADJ_DEPOSIT) {
             panic!("used y amt cannot exceed provided amount");
         }
+        // what exceeds the provided amounts is float rounding: never debit it
+        let x_in = x_in.min(x);
+        let y_in = y_in.min(y);
 
         let (fees_x, fees_y, adj_x, adj_y) =
             self._set_position(user_id, lower_tick, upper_tick, liq);
-- 
2.43.0


From 83f6a3618706b6369d0b014d8b8a296969a8457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 20/25] fix: rounding dust must not refuse a swap that empties
 the reserve

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 31914f2..6639e21 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -728,6 +728,8 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dY ( done Y quantity) and hmm_adj_Y (hmm related fee)
         let done_dy_cpmm = Pool::dy_from_l_drp(liq, start_rp, end_rp);
+        // rounding dust missing from the reserve must not refuse a swap that empties it
+        let done_dy_cpmm = Self::round_to_reserve(done_dy_cpmm.neg(), self.y).neg();
         if self.c.is_zero() || rp_oracle.is_zero() || rp_oracle.gte(start_rp).unwrap() {
             // also when rP_oracle is None (zero)
             // in cases where no oracle or no hmm c=0, we cannot adjust so we fall back to amm
@@ -996,6 +998,8 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dX and hmm_adj_X
         let done_dx_cpmm = Pool::dx_from_l_drp(liq, start_rp, end_rp);
+        // rounding dust missing from the reserve must not refuse a swap that empties it
+        let done_dx_cpmm = Self::round_to_reserve(done_dx_cpmm.neg(), self.x).neg();
 
         if self.c.is_zero() || rp_oracle.is_zero() || rp_oracle.lte(start_rp).unwrap() {
             // also also rP_oracle is None (zero)
-- 
2.43.0


From 5bbc8171574c036da55ec7e7868f111fd0d1517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 21/25] fix: float rounding dust must not refuse a swap that
 empties the reserve

---
 .../src/cl_pool_float/cl_math.rs              |  2 ++
 .../hmmcl-sandbox/src/cl_pool_float/mod.rs    | 21 +++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index f872f88..b32d7e9 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -5,6 +5,8 @@ pub trait PoolMath {
     const ADJ_WHOLE_FILL: f64 = 1.0e-12;
     const ADJ_WITHDRAWAL: f64 = 1.0e-12;
     const ADJ_DEPOSIT: f64 = 1.0e-12;
+    // what float rounding may leave the reserves short of
+    const RESERVE_DUST: f64 = 1.0e-3;
     const FLOOR_LIQ: bool = true;
 
     fn tick_to_rp(tick: u32) -> f64 {
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index e3c6abb..07b5ff2 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -543,6 +543,15 @@ impl<'a> Pool<'a> {
         println!("including {} & {}", fees_x + adj_x, fees_y + adj_y);
     }
 
+    fn round_to_reserve(amount: f64, reserve: f64) -> f64 {
+        // float rounding of earlier deposits and swaps may leave reserve short of amount by a tiny
+        // quantity: round amount down to the reserve in that case
+        if amount - reserve <= Self::RESERVE_DUST {
+            return amount.min(reserve.max(0.0));
+        }
+        amount
+    }
+
     //+ SWAPPING
     fn swap_within_tick_from_x(
         &mut self,
@@ -630,6 +639,8 @@ impl<'a> Pool<'a> {
         // adjust conservatively to avoid rounding issues.
         done_dy *= 1.0 - Pool::ADJ_WHOLE_FILL;
         done_dy_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
+        // rounding dust missing from the reserve must not refuse a swap that empties it
+        done_dy_cpmm = -Self::round_to_reserve(-done_dy_cpmm, self.y);
 
         // rounding must not let the hmm curve give out more than the plain amm (tiny adjustments)
         let done_dy = done_dy.max(done_dy_cpmm);
@@ -643,7 +654,7 @@ impl<'a> Pool<'a> {
         if hmm_adj_y < 0.0 {
             panic!("hmm adj should be positive (conservative 4 pool)");
         }
-        if self.y + done_dy_cpmm < 0.0 {
+        if self.y + done_dy_cpmm < -Self::RESERVE_DUST {
             panic!("cannot swap out more Y than present in pool");
         }
         return SwapWithinResult::new(done_dx, done_dy, end_t, end_rp, cross, hmm_adj_y, fee_x);
@@ -729,7 +740,7 @@ impl<'a> Pool<'a> {
                     hmm_adj_y = rez.send_hmm_adj();
                     // float rounding must not charge more than is left of the order
                     fee_x = rez.recv_fee().min(dx - swpd_dx - done_dx);
-                    assert!(self.y + done_dy - hmm_adj_y >= 0.0);
+                    assert!(self.y + done_dy - hmm_adj_y >= -Self::RESERVE_DUST);
                     assert!(dx - swpd_dx >= done_dx);
 
                     // update local totals
@@ -870,6 +881,8 @@ impl<'a> Pool<'a> {
 
         // adjust to prevent rounding issues
         done_dx_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
+        // rounding dust missing from the reserve must not refuse a swap that empties it
+        done_dx_cpmm = -Self::round_to_reserve(-done_dx_cpmm, self.x);
         done_dx *= 1.0 - Pool::ADJ_WHOLE_FILL;
 
         // rounding must not let the hmm curve give out more than the plain amm (tiny adjustments)
@@ -884,7 +897,7 @@ impl<'a> Pool<'a> {
         if hmm_adj_x < 0.0 {
             panic!("hmm adj should be positive (conservative 4 pool)");
         }
-        if self.x + done_dx_cpmm < 0.0 {
+        if self.x + done_dx_cpmm < -Self::RESERVE_DUST {
             panic!("cannot swap out more X than present in pool");
         }
 
@@ -971,7 +984,7 @@ impl<'a> Pool<'a> {
                     hmm_adj_x = rez.send_hmm_adj();
                     // float rounding must not charge more than is left of the order
                     fee_y = rez.recv_fee().min(dy - swpd_dy - done_dy);
-                    assert!(self.x + done_dx - hmm_adj_x >= 0.0);
+                    assert!(self.x + done_dx - hmm_adj_x >= -Self::RESERVE_DUST);
                     assert!(dy - swpd_dy >= done_dy);
 
                     // update local totals
-- 
2.43.0


From 71e1066c12e0a196d618d126efab247d6568daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:06 +0000
Subject: [PATCH 22/25] fix: fractional withdrawals left float rounding in the
 ticks and locked the last provider in

---
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs |  2 ++
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs     | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index b32d7e9..d3e42c0 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -8,6 +8,8 @@ pub trait PoolMath {
     // what float rounding may leave the reserves short of
     const RESERVE_DUST: f64 = 1.0e-3;
     const FLOOR_LIQ: bool = true;
+    // liquidity is withdrawn in multiples of this, unless it is all there is
+    const LIQ_UNIT: f64 = 0.0625;
 
     fn tick_to_rp(tick: u32) -> f64 {
         Self::TICK_BASE.sqrt().powf(tick as f64)
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 07b5ff2..0a5bd72 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -514,6 +514,16 @@ impl<'a> Pool<'a> {
         let rpa_used = Pool::tick_to_rp(lower_tick);
         let rpb_used = Pool::tick_to_rp(upper_tick);
 
+        // round down what is taken out of a position: float sums of liquidity are only exact in
+        // parts of a power of two, and ticks would keep, or lack, what additions round off
+        let key = PositionKey(user_id, lower_tick, upper_tick);
+        let held = self.positions.get(&key).map_or(0.0, |poz| poz.liq());
+        let liq = if Self::FLOOR_LIQ && liq < held {
+            (liq / Self::LIQ_UNIT).floor() * Self::LIQ_UNIT
+        } else {
+            liq
+        };
+
         let (fees_x, fees_y, adj_x, adj_y) =
             self._set_position(user_id, lower_tick, upper_tick, -liq);
         let rp_used = self.glbl_rp();
-- 
2.43.0


From 46f4de93b984ca8a8d75543eeb5a6cd9d5ab3cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 23/25] fix: float pools opened at a negative price, with a
 negative fee rate or an HMM constant out of bounds

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 0a5bd72..d176c56 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -43,6 +43,16 @@ impl<'a> Pool<'a> {
         hmm_c: f64,
         fee_rate: f64,
     ) -> Pool<'a> {
+        if bootstrap_rp < 0.0 {
+            panic!("cannot bootstrap with negative root-price");
+        }
+        if !(0.0..=2.0).contains(&hmm_c) {
+            panic!("hmm_c needs to be between 0 and 2");
+        }
+        if fee_rate < 0.0 {
+            panic!("fee_rate cannot be with negative");
+        }
+
         let tk = Self::rp_to_possible_tk(bootstrap_rp, tick_spacing, false);
         let rp = Self::tick_to_rp(tk);
 
-- 
2.43.0


From 25787b212c1511beee24ab7a6e1e7832c6837b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 24/25] fix: float requests with amounts or prices that are not
 a number were accepted and spoilt the pool

---
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs |  3 +++
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs     | 11 +++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index d3e42c0..8229191 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -16,6 +16,9 @@ pub trait PoolMath {
     }
 
     fn rp_to_tick(rp: f64, left_to_right: bool) -> u32 {
+        if rp.is_nan() {
+            panic!("root-price is not a number");
+        }
         let base = Self::TICK_BASE.sqrt();
         let mut tick = rp.log(base).floor() as u32;
         // 'log' rounds differently than the root-price that a tick really has
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index d176c56..844fb91 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -448,7 +448,7 @@ impl<'a> Pool<'a> {
 
     pub fn deposit(&mut self, user_id: &'a str, x: f64, y: f64, rpa: f64, rpb: f64) {
         // interface to deposit liquidity in pool & give change if necessary
-        if x < 0.0 || y < 0.0 {
+        if !(x >= 0.0 && y >= 0.0) {
             panic!("can only deposit positive amounts");
         }
 
@@ -467,6 +467,9 @@ impl<'a> Pool<'a> {
         // ? only when no liquidity in range?
 
         let mut liq = Pool::liq_from_x_y_rp_rng(x, y, rp_used, rpa_used, rpb_used);
+        if !liq.is_finite() {
+            panic!("can only deposit finite amounts");
+        }
         // round down to avoid float rounding vulnerabilities
         // TODO choose what precision to round down to
         if Self::FLOOR_LIQ {
@@ -510,7 +513,7 @@ impl<'a> Pool<'a> {
 
     pub fn withdraw(&mut self, user_id: &'a str, liq: f64, rpa: f64, rpb: f64) {
         // interface to withdraw liquidity from pool
-        if liq < 0.0 {
+        if !(liq >= 0.0) {
             panic!("can only withdraw positive amounts")
         }
 
@@ -684,7 +687,7 @@ impl<'a> Pool<'a> {
         // * Swap algo when provided with dX>0
         // * We go from right to left on the curve and manage crossings as needed.
         // * within initialized tick we use swap_within_tick_from_X
-        if dx <= 0.0 {
+        if !(dx > 0.0) {
             panic!("can only handle X being supplied to pool, dX>0");
         }
         let left_to_right = false;
@@ -928,7 +931,7 @@ impl<'a> Pool<'a> {
         // Swap algo when pool provided with dY > 0
         // We go from right to left on the curve and manage crossings as needed.
         // within initialized tick we use swap_within_tick_from_X
-        if dy <= 0.0 {
+        if !(dy > 0.0) {
             panic!("can only handle Y being supplied to pool, dY>0");
         }
         let left_to_right = true;
-- 
2.43.0


From 095aa16e96e7bfbc097d0b2fae6fce0c092bb97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 25/25] fix: an order too large to compute with was refused but
 had moved the price into range

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 6639e21..a5254a8 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -787,6 +787,9 @@ impl<'a> Pool<'a> {
         //  Swap algo when pool receives dX>0
         //  We go from right to left on the price line (price goes down) and manage tick crossings as needed.
         //  within 2 consecutive active ticks, we delegate to swap_within_tick_from_X(..)
+        // an amount too large to put its fees aside is refused here, before price moves into range
+        dx.mul(Self::one().sub(self.fee_rate).unwrap());
+
         if !dx.is_positive() {
             // do not allow zero
             panic!("can only handle X being supplied to pool, dX>0");
@@ -1057,6 +1060,9 @@ impl<'a> Pool<'a> {
         // Swap algo when pool provided with dY > 0
         // We go from left to right on the price line (price goes up) and manage tick-crossings as needed.
         // within 2 consecutive active ticks, we delegate to swap_within_tick_from_Y(..)
+        // an amount too large to put its fees aside is refused here, before price moves into range
+        dy.mul(Self::one().sub(self.fee_rate).unwrap());
+
         if !dy.is_positive() {
             panic!("can only handle Y being supplied to pool, dY>0");
         }
-- 
2.43.0

