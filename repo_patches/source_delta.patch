From ddf73ac1e3ca4804d31ee3eca2cea9802f2ecb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 01/23] fix: bounds-check the lookup tables reachable from safe
 functions

Hand::evaluate, evaluate_without_flush, get_card_index and
Hand::get_card_index are safe functions but read their tables with
get_unchecked, so an oversized hand, a one-card hand or an invalid card
number read arbitrary memory. Use checked indexing; such calls now panic.
---
 src/hand_evaluator/hand.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/hand_evaluator/hand.rs b/src/hand_evaluator/hand.rs
index b8de861..049ec81 100644
--- a/src/hand_evaluator/hand.rs
+++ b/src/hand_evaluator/hand.rs
@@ -17,7 +17,7 @@ pub fn get_card_index(card1: u8, card2: u8) -> usize {
         std::mem::swap(&mut card1, &mut card2);
     }
     let index = card1 as usize * (101 - card1 as usize) / 2 + card2 as usize - 1;
-    unsafe {*CARD_MAP.get_unchecked(index) as usize}
+    (&CARD_MAP)[index] as usize
 }
 
 /// This function is very experimental.
@@ -267,28 +267,28 @@ impl Hand {
          let b = mask.leading_zeros();
          let b = 63 - b;
          let index = (b | (s<<6)) as usize;
-         unsafe { *MASK_MAP.get_unchecked(index) as usize}
+         (&MASK_MAP)[index] as usize
      }
 
     /// Returns hand strength in 16-bit integer.
     #[inline(always)]
     pub fn evaluate(&self) -> u16 {
         if self.has_flush() {
-            unsafe { *LOOKUP_FLUSH.get_unchecked(self.get_flush_key()) }
+            (&LOOKUP_FLUSH)[self.get_flush_key()]
         } else {
             let rank_key = self.get_rank_key();
-            let offset = unsafe { *PERF_HASH_OFFSETS.get_unchecked(rank_key >> PERF_HASH_ROW_SHIFT) };
+            let offset = (&PERF_HASH_OFFSETS)[rank_key >> PERF_HASH_ROW_SHIFT];
             let hash_key = (rank_key as u32).wrapping_add(offset) as usize;
-            unsafe { *LOOKUP.get_unchecked(hash_key) }
+            (&LOOKUP)[hash_key]
         }
     }
     
     #[inline(always)]
     pub fn evaluate_without_flush(&self) -> u16 {
         let rank_key = self.get_rank_key();
-        let offset = unsafe { *PERF_HASH_OFFSETS.get_unchecked(rank_key >> PERF_HASH_ROW_SHIFT) };
+        let offset = (&PERF_HASH_OFFSETS)[rank_key >> PERF_HASH_ROW_SHIFT];
         let hash_key = (rank_key as u32).wrapping_add(offset) as usize;
-        unsafe { *LOOKUP.get_unchecked(hash_key) }
+        (&LOOKUP)[hash_key]
     }
 }
 
-- 
2.43.0


From 3058ff5b933ee74b8147784b5c65983a0ae3998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 02/23] fix: return an error for invalid characters in
 card_from_chars

An unknown rank or suit overflowed 4 * rank + suit: a panic in debug
builds and a bogus card number in release builds. Affects card_from_str
and flop_from_str as well.
---
 src/hand_range.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 4992e4c..5d63c6b 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -460,6 +460,9 @@ pub fn card_from_chars<T: Iterator<Item = char>>(chars: &mut T) -> Result<u8, St
 
     let rank = char_to_rank(rank_char);
     let suit = char_to_suit(suit_char);
+    if rank == u8::MAX || suit == u8::MAX {
+        return Err(format!("Invalid card: {rank_char}{suit_char}"));
+    }
 
     Ok(4 * rank + suit)
 }
-- 
2.43.0


From 5688d64bc18dcfed26b6441f0b93413f91fc9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 03/23] fix: return an error for card numbers outside the deck
 in hole_to_string

Numbers of 64 and above overflowed the shift and 52..63 silently
produced an incomplete string.
---
 src/hand_range.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 5d63c6b..d78696c 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -486,6 +486,9 @@ pub fn holes_to_strings(holes: &[(u8, u8)]) -> Result<Vec<String>, String> {
 
 #[inline]
 pub fn hole_to_string(hole: (u8, u8)) -> Result<String, String> {
+    if hole.0 >= CARD_COUNT || hole.1 >= CARD_COUNT {
+        return Err("Invalid card index".to_string());
+    }
     let mask = (1 << hole.0) | (1 << hole.1);
     Ok(format!(
         "{}",
-- 
2.43.0


From 065c92a8fc38b5a3dc3678debf1bfe7633a67ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 04/23] fix: do not overflow on range weights with many digits

A weight of ten or more digits overflowed u32: a panic in debug builds,
and in release builds e.g. @4294967346 was taken as weight 50. Reject
the weight as soon as it exceeds 100, as shorter numbers already were.
---
 src/hand_range.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index d78696c..1b0b837 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -224,16 +224,15 @@ impl HandRange {
                 Some(num) => {
                     number *= 10;
                     number += num;
-                    *i += 1;
-                }
-                None => {
                     if number > 100 {
                         *i = backtrack;
                         return false;
-                    } else {
-                        *weight = number as u8;
-                        return true;
                     }
+                    *i += 1;
+                }
+                None => {
+                    *weight = number as u8;
+                    return true;
                 }
             }
         }
-- 
2.43.0


From dfb320cf580479c01ec57c4474a0bfb841bb8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 05/23] fix: accept pair ranges written in ascending order

22-55 silently denoted no hands, while 55-22 and both directions of every
other dash range work.
---
 src/hand_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 1b0b837..99b12b4 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -337,7 +337,7 @@ impl HandRange {
 
     fn add_combos_dash(&mut self, rank1: u8, rank2: u8, rank3: u8, rank4: u8, suited: bool, offsuited: bool, weight: u8){
         if rank1 == rank2 {
-            for r in rank3..=rank1{
+            for r in rank1.min(rank3)..=rank1.max(rank3) {
                 self.add_combos(r, r, suited, offsuited, weight);
             }
         } else {
-- 
2.43.0


From 255913bb53e5c9a2d78752c02e59a8a28a53d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 06/23] fix: accept plus ranges with the lower rank first

2A and 2A-5A denote the same hands as A2 and A2-A5, but 2A+ silently
denoted no hands.
---
 src/hand_range.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 99b12b4..548618d 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -329,8 +329,9 @@ impl HandRange {
             }
         } else {
             // add other A2+ (includes A2,A3,..AK,AA)
-            for r in rank2..rank1 {
-                self.add_combos(rank1, r, suited, offsuited, weight);
+            let (high, low) = (rank1.max(rank2), rank1.min(rank2));
+            for r in low..high {
+                self.add_combos(high, r, suited, offsuited, weight);
             }
         }
     }
-- 
2.43.0


From daa712856962e25625966097f39733a9b2dd656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 07/23] fix: do not truncate tie shares to whole numbers

The weight of split pots was divided by the number of winners as an
integer, per batch and winner set. With small weights the equities were
wrong or NaN, e.g. three players @1 who all play the board.
---
 src/equity_calculator/simulator.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 4448a14..48972d8 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -542,7 +542,8 @@ pub struct UnitResults {
 }
 
 impl Default for UnitResults {
-    fn default() -> Self {
+    fn default() -> Self {
+
         UnitResults { 
             wins: 0, 
             ties: 0, 
@@ -555,7 +556,8 @@ impl Default for UnitResults {
             rank: u8::MAX, 
             draw: 0,
             valid: false
-        }
+        }
+
     }
 }
 
@@ -1134,10 +1136,10 @@ impl Simulator {
                             batch_equity += batch.wins_by_mask[i] as f64;
                         }
                     } else {
-                        results.ties[batch.player_ids[j]] +=
-                            (batch.wins_by_mask[i] / winner_count) as f64;
+                        let share = batch.wins_by_mask[i] as f64 / winner_count as f64;
+                        results.ties[batch.player_ids[j]] += share;
                         if batch.player_ids[j] == 0 {
-                            batch_equity += (batch.wins_by_mask[i] / winner_count) as f64;
+                            batch_equity += share;
                         }
                     }
                     actual_player_mask |= 1 << batch.player_ids[j];
-- 
2.43.0


From f37096a3825b6a49ede72fe4df19629700f721a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 08/23] fix: keep the equity of hands that were never dealt at
 0

Merging a batch divided 0 by 0 for every hand outside the range, so
hand_results and get_hand_result reported NaN for them.
---
 src/equity_calculator/simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 48972d8..486b171 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -583,7 +583,9 @@ impl AddAssign for UnitResults {
         self.ties += other.ties;
         self.total += other.total;
         self.corrected_ties += other.corrected_ties;
-        self.equity = (self.wins as f64+self.corrected_ties)/self.total as f64;
+        if self.total > 0 {
+            self.equity = (self.wins as f64+self.corrected_ties)/self.total as f64;
+        }
     }
 }
 
-- 
2.43.0


From aaf92a264ca70feac1c79b3da3c7332b655509d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 09/23] fix: report at most 100% progress from Monte Carlo runs

The callback is documented to take 0-100% but received up to 255 once
the target was exceeded.
---
 src/equity_calculator/simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 486b171..66984a2 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1161,7 +1161,7 @@ impl Simulator {
                 .sqrt()
                 / results.batch_count;
 
-            let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0) as u8;
+            let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0).min(100.0) as u8;
             tx.send(progress).unwrap();
 
             // calc variance
-- 
2.43.0


From 34826c3b8cc10a4d7f9532ff9a8652d5a692ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:27 +0000
Subject: [PATCH 10/23] fix: use one worker when asked for zero threads

With n_threads == 0 nothing was evaluated and the call returned Ok with
NaN equities.
---
 src/equity_calculator/simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 66984a2..e824dcd 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -118,7 +118,7 @@ pub fn exact_equity<F: Fn(u8)>(
 
     // spawn threads
     thread::scope(|scope| {
-        for _ in 0..n_threads {
+        for _ in 0..n_threads.max(1) {
             let tx = tx.clone();
             let sim = Arc::clone(&sim);
             scope.spawn(move || {
@@ -227,7 +227,7 @@ pub fn approx_equity<F: Fn(u8)>(
     
     // spawn threads
     thread::scope(|scope| {
-        for _ in 0..n_threads {
+        for _ in 0..n_threads.max(1) {
             let tx = tx.clone();
             let sim = Arc::clone(&sim);
             let mut rng = SmallRng::from_rng(&mut rng);
-- 
2.43.0


From 8676c3687de096e1447eccca542f0d08a34e86c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:27 +0000
Subject: [PATCH 11/23] fix: scale range weights down to keep counters from
 overflowing

Every deal was counted with the product of the raw weights (100 by
default), i.e. 10^18 per deal with nine players, so the u64 counters
overflowed: wrong equities in release builds (one of nine players with
random ranges got 0) and a panic in debug builds. Dividing each range by
the gcd of its weights changes no result. Hands with weight 0 are not
dealt at all, so a range of only such hands is reported as conflicting
instead of giving NaN equities.
---
 src/equity_calculator/simulator.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index e824dcd..86e08b9 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -91,7 +91,7 @@ pub fn exact_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let combined_ranges = CombinedRange::from_ranges(&relative_weights(&hand_ranges));
     for cr in &combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -199,7 +199,7 @@ pub fn approx_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let mut combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let mut combined_ranges = CombinedRange::from_ranges(&relative_weights(&hand_ranges));
     for cr in &mut combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -253,6 +253,25 @@ pub fn approx_equity<F: Fn(u8)>(
     Ok(results)
 }
 
+/// Ranges as used for dealing. Only the ratios between the weights of a
+/// range matter, so each range is scaled down by the greatest common divisor
+/// of its weights: the product of up to nine weights times the number of deals
+/// has to fit the counters. Hands with weight 0 are never dealt.
+fn relative_weights(hand_ranges: &[HandRange]) -> Vec<HandRange> {
+    fn gcd(a: u8, b: u8) -> u8 {
+        if b == 0 { a } else { gcd(b, a % b) }
+    }
+    let mut hand_ranges = hand_ranges.to_owned();
+    for hand_range in &mut hand_ranges {
+        hand_range.hands.retain(|h| h.2 > 0);
+        let divisor = hand_range.hands.iter().fold(0, |d, h| gcd(d, h.2));
+        for hand in &mut hand_range.hands {
+            hand.2 /= divisor;
+        }
+    }
+    hand_ranges
+}
+
 /// Stores total results of the simulation
 #[derive(Debug, Clone)]
 pub struct SimulationResults {
-- 
2.43.0


From 4e2b1b9d60c228b16c0aeabd3a5c4cc5e9bbb358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:27 +0000
Subject: [PATCH 12/23] fix: saturate the number of hole card combinations

With seven or more wide ranges the product overflowed u64: a panic in
debug builds, and in release builds an enumeration that may end at an
arbitrary point (at once for eight groups of 256) and look complete.
---
 src/equity_calculator/simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 86e08b9..d6a9e8d 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -991,7 +991,7 @@ impl Simulator {
     fn get_preflop_combo_count(&self) -> u64 {
         let mut combo_count = 1u64;
         for c in &self.combined_ranges {
-            combo_count *= c.size() as u64;
+            combo_count = combo_count.saturating_mul(c.size() as u64);
         }
         combo_count
     }
-- 
2.43.0


From b976ca2af4cbc939d31e538a84714159fa6325d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 13/23] fix: notice cancellation between batches of an exact
 enumeration

The token was only looked at after 10000 evaluations. When nearly all
hole card combinations conflict, e.g. five players with A2+, there are
none and the calculation could not be cancelled.
---
 src/equity_calculator/simulator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index d6a9e8d..dbf3d39 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -723,6 +723,11 @@ impl Simulator {
         // let randomize_order = postflop_combos > 10000 && preflop_combos <= 2 * MAX_LOOKUP_SIZE;
         loop {
             if enum_pos >= enum_end {
+                // most of a batch may be skipped as conflicting, so don't
+                // rely on the evaluation count alone to notice cancellation
+                if enum_end > 0 && self.stopped.load(std::sync::atomic::Ordering::SeqCst) {
+                    break;
+                }
                 let batch_size = std::cmp::max(2000000 / postflop_combos, 1);
                 let (p, e) = self.reserve_batch(batch_size);
                 enum_pos = p;
-- 
2.43.0


From c57f2d76d2e3ca093bafa9cb71278614eb9dc537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 14/23] fix: report ranges with no possible deal as conflicting

When no compatible assignment of hole cards exists but the ranges are too
large to be joined (five players with A2+), nothing was evaluated and the
call returned Ok with NaN equities. A run cancelled before its first deal
now returns zero equities instead of NaN.
---
 src/equity_calculator/simulator.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index dbf3d39..3f7a34f 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -132,8 +132,12 @@ pub fn exact_equity<F: Fn(u8)>(
     });
     // get results and calculate equity
     sim.fix_hand_weights(flag);
-    let results = Arc::try_unwrap(sim).unwrap().results;
-    let mut results = results.into_inner().unwrap();
+    let sim = Arc::try_unwrap(sim).unwrap();
+    let cancelled = sim.stopped.load(std::sync::atomic::Ordering::SeqCst);
+    let mut results = sim.results.into_inner().unwrap();
+    if results.eval_count == 0 && !cancelled {
+        return Err(SimulatorError::ConflictingRanges);
+    }
     results.get_equity();
     results.generate_final_data();
     if board_mask.count_ones() > 2 {
@@ -243,8 +247,12 @@ pub fn approx_equity<F: Fn(u8)>(
     });
     // get results and calculate equity
     sim.fix_hand_weights(flag);
-    let results = Arc::try_unwrap(sim).unwrap().results;
-    let mut results = results.into_inner().unwrap();
+    let sim = Arc::try_unwrap(sim).unwrap();
+    let cancelled = sim.stopped.load(std::sync::atomic::Ordering::SeqCst);
+    let mut results = sim.results.into_inner().unwrap();
+    if results.eval_count == 0 && !cancelled {
+        return Err(SimulatorError::ConflictingRanges);
+    }
     results.get_equity();
     results.generate_final_data();
     if board_mask.count_ones() > 2 {
@@ -328,8 +336,10 @@ impl SimulationResults {
             equity[i] += self.ties[i];
             equity_sum += equity[i];
         }
-        for e in &mut equity {
-            *e /= equity_sum;
+        if equity_sum > 0. {
+            for e in &mut equity {
+                *e /= equity_sum;
+            }
         }
         self.equities = equity;
     }
-- 
2.43.0


From 7ace5bd34faa6081852768477117e6efc578d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 15/23] fix: try harder to deal compatible hole cards in Monte
 Carlo runs

With many players on tight ranges fewer than one random deal in a
thousand is compatible, e.g. seven players on AJ+,KJ+,QJ,JJ+. After 1000
attempts a worker quit without reaching the error target, or without any
result at all.
---
 src/equity_calculator/simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 3f7a34f..ca798bd 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -25,6 +25,8 @@ use crate::hand_range::HandRange;
 const MIN_PLAYERS: usize = 2;
 const MAX_PLAYERS: usize = 9;
 const BOARD_CARDS: u32 = 5;
+/// Random deals of hole cards to try before giving up on finding a compatible one
+const MAX_DEAL_ATTEMPTS: usize = 1_000_000;
 const NUM_HANDS: usize = 1326;
 const NUM_COMBOS: usize = 169;
 
@@ -1126,7 +1128,7 @@ impl Simulator {
         combo_dists: &[Uniform<usize>],
     ) -> bool {
         let mut ok;
-        for _ in 0..1000 {
+        for _ in 0..MAX_DEAL_ATTEMPTS {
             ok = true;
             *used_cards_mask = self.board_mask | self.dead_mask;
             for i in 0..self.combined_ranges.len() {
-- 
2.43.0


From 25b7c6318d84a217853d4970d4cb467a75cac1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 16/23] fix: leave empty batches out of the Monte Carlo error
 estimate

Every worker finished by merging an empty batch that counted as a batch
with equity 0, so the reported stdev was far too large (0.09 for two
random hands and a target of 0.01).
---
 src/equity_calculator/simulator.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index ca798bd..c181934 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1189,9 +1189,12 @@ impl Simulator {
 
         results.eval_count += batch.eval_count;
         if !self.calc_exact {
-            results.batch_sum += batch_equity;
-            results.batch_sum2 += batch_equity * batch_equity;
-            results.batch_count += 1.0;
+            // the last batch of a worker is usually empty and says nothing
+            if batch.eval_count > 0 {
+                results.batch_sum += batch_equity;
+                results.batch_sum2 += batch_equity * batch_equity;
+                results.batch_count += 1.0;
+            }
             results.stdev = (1e-9 + results.batch_sum2
                 - results.batch_sum * results.batch_sum / results.batch_count)
                 .sqrt()
-- 
2.43.0


From 80333e09aae2c76a3c2fa194264cfafbafd72e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 17/23] fix: do not stop Monte Carlo runs after a single batch

The deviation of one batch is always 0, so every run with a target above
0.00003 stopped after the first batch of 4096 deals whatever the target.
This is also why test_approx_weighted fails now and then.
---
 src/equity_calculator/simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index c181934..5c84ba1 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -27,6 +27,8 @@ const MAX_PLAYERS: usize = 9;
 const BOARD_CARDS: u32 = 5;
 /// Random deals of hole cards to try before giving up on finding a compatible one
 const MAX_DEAL_ATTEMPTS: usize = 1_000_000;
+/// Batches needed before their spread is a usable estimate of the error
+const MIN_BATCHES: f64 = 16.;
 const NUM_HANDS: usize = 1326;
 const NUM_COMBOS: usize = 169;
 
@@ -1204,7 +1206,7 @@ impl Simulator {
             tx.send(progress).unwrap();
 
             // calc variance
-            if !finished && results.stdev < self.stdev_target {
+            if !finished && results.batch_count >= MIN_BATCHES && results.stdev < self.stdev_target {
                 self.stopped.store(true, std::sync::atomic::Ordering::SeqCst);
             }
         } else {
-- 
2.43.0


From 6ce9aa0ddb7ce24625be505f0cb56b75add8d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 18/23] fix: read "random" in any letter case

---
 src/hand_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 548618d..88ad038 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -134,7 +134,7 @@ impl HandRange {
     pub fn from_string(text: String) -> Self {
         let mut range: HandRange = HandRange::new();
 
-        if text == "random" {
+        if text.eq_ignore_ascii_case("random") {
             range.add_all();
         } else {
             range.char_vec = text.to_lowercase().chars().collect();
-- 
2.43.0


From 016e65051b2ac16c82ad8108b12ccc205a2342fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:19 +0000
Subject: [PATCH 19/23] fix: count the wins and ties of the ninth player

---
 src/equity_calculator/simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 5c84ba1..16c8473 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1298,9 +1298,9 @@ impl Simulator {
         flush_possible: bool,
     ) {
         // evaulate hands
-        let mut winner_mask: u8 = 0;
+        let mut winner_mask: u16 = 0;
         let mut best_score: u16 = 0;
-        let mut player_mask: u8 = 1;
+        let mut player_mask: u16 = 1;
         let mut counter: usize = 0;
         let mut indexes: [usize; MAX_PLAYERS] = [0; MAX_PLAYERS];
 
-- 
2.43.0


From 3a0bccbf3cd1073a67cf2aeb0d0377b3907a60e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 20/23] fix: do not count a dead card that is on the board
 twice

---
 src/equity_calculator/simulator.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 16c8473..c06f423 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -87,7 +87,7 @@ pub fn exact_equity<F: Fn(u8)>(
     if board_mask.count_ones() > BOARD_CARDS {
         return Err(SimulatorError::TooManyBoardCards);
     }
-    if 2 * hand_ranges.len() as u32 + dead_mask.count_ones() + BOARD_CARDS > CARD_COUNT as u32 {
+    if 2 * hand_ranges.len() as u32 + (dead_mask & !board_mask).count_ones() + BOARD_CARDS > CARD_COUNT as u32 {
         return Err(SimulatorError::TooManyDeadCards);
     }
 
@@ -198,7 +198,7 @@ pub fn approx_equity<F: Fn(u8)>(
     if board_mask.count_ones() > BOARD_CARDS {
         return Err(SimulatorError::TooManyBoardCards);
     }
-    if 2 * hand_ranges.len() as u32 + dead_mask.count_ones() + BOARD_CARDS > CARD_COUNT as u32 {
+    if 2 * hand_ranges.len() as u32 + (dead_mask & !board_mask).count_ones() + BOARD_CARDS > CARD_COUNT as u32 {
         return Err(SimulatorError::TooManyDeadCards);
     }
     
@@ -1017,8 +1017,7 @@ impl Simulator {
 
     fn get_postflop_combo_count(&self) -> u64 {
         let mut cards_in_deck = u64::from(CARD_COUNT);
-        cards_in_deck -= u64::from(self.fixed_board.count());
-        cards_in_deck -= self.dead_mask.count_ones() as u64;
+        cards_in_deck -= (self.board_mask | self.dead_mask).count_ones() as u64;
         cards_in_deck -= 2 * self.n_players as u64;
         let board_cards_remaining = 5 - u64::from(self.fixed_board.count());
         let mut postflop_combos = 1u64;
-- 
2.43.0


From 8c6cd9aa086c7a48641db37fda743bbc1b6ffef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 21/23] fix: no NaN standard deviation when a cancelled run
 dealt nothing

The first batch sum was divided by a batch count of zero.
---
 src/equity_calculator/simulator.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index c06f423..2a557a3 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1196,10 +1196,12 @@ impl Simulator {
                 results.batch_sum2 += batch_equity * batch_equity;
                 results.batch_count += 1.0;
             }
-            results.stdev = (1e-9 + results.batch_sum2
-                - results.batch_sum * results.batch_sum / results.batch_count)
-                .sqrt()
-                / results.batch_count;
+            if results.batch_count > 0.0 {
+                results.stdev = (1e-9 + results.batch_sum2
+                    - results.batch_sum * results.batch_sum / results.batch_count)
+                    .sqrt()
+                    / results.batch_count;
+            }
 
             let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0).min(100.0) as u8;
             tx.send(progress).unwrap();
-- 
2.43.0


From f5724fa651ad0265fd567e91858b14488843bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 22/23] fix: standard deviation of long runs with a certain
 outcome was NaN

After some thousand batches with the same equity the rounded sum of squares
fell below the square of the sum by more than 1e-9.
---
 src/equity_calculator/simulator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 2a557a3..49458ed 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1197,10 +1197,11 @@ impl Simulator {
                 results.batch_count += 1.0;
             }
             if results.batch_count > 0.0 {
-                results.stdev = (1e-9 + results.batch_sum2
+                // rounding can make the difference of the sums slightly negative
+                let squares = (results.batch_sum2
                     - results.batch_sum * results.batch_sum / results.batch_count)
-                    .sqrt()
-                    / results.batch_count;
+                    .max(0.0);
+                results.stdev = (1e-9 + squares).sqrt() / results.batch_count;
             }
 
             let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0).min(100.0) as u8;
-- 
2.43.0


From 185cd23672692f2b0707ab7767ba854ab1469119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:31 +0000
Subject: [PATCH 23/23] fix: approx_equity no longer sets the caller's cancel
 token

When a Monte Carlo run reached its target it told its workers so by setting
the token it was given: other calculations sharing the token were stopped,
and later ones given the same token stopped at once.
---
 src/equity_calculator/simulator.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 49458ed..defa825 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -682,8 +682,10 @@ struct Simulator {
     fixed_board: Hand,
     /// number of players
     n_players: usize,
-    /// has monte carlo sim stopped
+    /// has the caller stopped the calculation
     stopped: Arc<AtomicBool>,
+    /// has monte carlo sim reached its target
+    converged: AtomicBool,
     /// final results
     results: RwLock<SimulationResults>,
     /// target stdev from each batch for monte carlo
@@ -715,6 +717,7 @@ impl Simulator {
             n_players,
             calc_exact,
             stopped: cancel_token,
+            converged: AtomicBool::new(false),
             enum_pos: Mutex::new(0u64),
             results: RwLock::new(SimulationResults::init(n_players)),
             stdev_target,
@@ -1077,6 +1080,9 @@ impl Simulator {
                     if self.stopped.load(std::sync::atomic::Ordering::SeqCst) {
                         break;
                     }
+                    if self.converged.load(std::sync::atomic::Ordering::SeqCst) {
+                        break;
+                    }
                     if !self.randomize_hole_cards(
                         &mut used_cards_mask,
                         &mut combo_indexes,
@@ -1209,7 +1215,7 @@ impl Simulator {
 
             // calc variance
             if !finished && results.batch_count >= MIN_BATCHES && results.stdev < self.stdev_target {
-                self.stopped.store(true, std::sync::atomic::Ordering::SeqCst);
+                self.converged.store(true, std::sync::atomic::Ordering::SeqCst);
             }
         } else {
             let progress = (*self.enum_pos.lock().unwrap() as f64 / self.get_preflop_combo_count() as f64 * 100.0) as u8;
-- 
2.43.0

