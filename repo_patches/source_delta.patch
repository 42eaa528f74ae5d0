From e8e2615968140b7bbce8b0d24b9174b20cc15f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 1/2] fix: derived SLOW_LIMIT must not be zero, else cyclic
 graphs never terminate

With PRECHECK_LIMIT below 10 the derived default of SLOW_LIMIT was 0, which means that the
slow phase was never used, and so equivalent cyclic graphs were compared forever.
---
 src/cycle_safe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cycle_safe.rs b/src/cycle_safe.rs
index 3a9bf25..31a5196 100644
--- a/src/cycle_safe.rs
+++ b/src/cycle_safe.rs
@@ -138,8 +138,12 @@ pub mod modes
             const FAST_LIMIT_MAX: u16 = 2 * Self::PRECHECK_LIMIT;
             /// How many nodes, consecutively, that have not already been seen, are traversed by
             /// the "slow" phase before switching to the "fast" phase.
+            ///
+            /// The derived default is always at least `1`, because `0` would never use the "slow"
+            /// phase and so would never terminate for cyclic graphs.
             #[allow(clippy::integer_division)]
-            const SLOW_LIMIT: u16 = Self::PRECHECK_LIMIT / 10;
+            const SLOW_LIMIT: u16 =
+                if Self::PRECHECK_LIMIT < 10 { 1 } else { Self::PRECHECK_LIMIT / 10 };
 
             /// Type of node that is recorded as equivalent in the [`Self::Table`].  Must be the
             /// same as used with the corresponding [`equiv::Params`].
-- 
2.43.0


From b866f97631bc02a1f1c06a4a1d8cecb65eeccee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 2/2] fix: an edge index must not be gotten three times when
 amounts of edges differ

---
 src/generic.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/generic.rs b/src/generic.rs
index 549fbd1..d3155b3 100644
--- a/src/generic.rs
+++ b/src/generic.rs
@@ -351,8 +351,18 @@ mod edges_iter
                         }
                         None
                     },
-                    [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),
-                    [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
+                    [None, Some(_)] => {
+                        if advance {
+                            self.next_index = None; // Not gotten again by `has_next` afterwards.
+                        }
+                        Some(Err(N::Cmp::from_ord(Ordering::Less)))
+                    },
+                    [Some(_), None] => {
+                        if advance {
+                            self.next_index = None; // Not gotten again by `has_next` afterwards.
+                        }
+                        Some(Err(N::Cmp::from_ord(Ordering::Greater)))
+                    },
                 }
             }
             else {
-- 
2.43.0

