From 472827b4aa74e01e3fcb91b20b7cf273b2e85db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:06 +0000
Subject: [PATCH] fix: report the ask quantity still locked after a self-trade
 in native units

The out event of the incoming ask put the remaining size in lots into
native_qty_still_locked, where every other out event carries native units.
---
 dex/src/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/src/matching.rs b/dex/src/matching.rs
index 1918dd5..e620677 100644
--- a/dex/src/matching.rs
+++ b/dex/src/matching.rs
@@ -445,7 +445,7 @@ impl<'ob> OrderBookState<'ob> {
                     side: Side::Ask,
                     release_funds: false,
                     native_qty_unlocked: cancelled_take_qty * coin_lot_size,
-                    native_qty_still_locked: unfilled_qty,
+                    native_qty_still_locked: unfilled_qty * coin_lot_size,
                     order_id,
                     owner,
                     owner_slot,
-- 
2.43.0

