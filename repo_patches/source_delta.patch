From 47cd6decd2e48ffed8fbb7c9ca6dcfe0c78f9ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 1/8] fix: a restricted diagram that runs out of nodes is not
 exact

When next_variable() still answers for an empty layer, compilation returned
early with the `exact` flag left at its reset value (true), even though nodes
had been dropped by the restriction: the solver then discarded the subproblem.
---
 src/mdd/with_all.rs     | 1 +
 src/mdd/with_barrier.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 53f424d..6637276 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -250,6 +250,7 @@ where
             }
 
             if curr_l.is_empty() {
+                self.exact = self._is_exact(input.comp_type);
                 return;
             }
 
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index d6c496d..a04adee 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -271,6 +271,7 @@ where
             }
 
             if curr_l.is_empty() {
+                self.exact = self._is_exact(input.comp_type);
                 return;
             }
 
-- 
2.43.0


From b3747c8542abefdf221b5daa2a9dbb4cca8f3496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 2/8] fix: exact terminal nodes belong to the frontier cutset

A complete exact path that crosses no exact/inexact boundary was neither
recorded as a solution nor enqueued, so the optimum could be missed with the
frontier cutset.
---
 src/mdd/with_all.rs     | 4 ++++
 src/mdd/with_barrier.rs | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 6637276..318c5cf 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -482,6 +482,10 @@ where
             for id in self.next_l.values().copied() {
                 self.nodes[id.0].value_bot = 0;
                 self.nodes[id.0].flags.set_marked(true);
+                if self.cutset_type == CutsetType::Frontier && self.nodes[id.0].flags.is_exact() {
+                    self.nodes[id.0].flags.set_cutset(true);
+                    self.cutset.push(id);
+                }
                 visit.push(id);
             }
 
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index a04adee..7685773 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -545,6 +545,7 @@ where
                 self.nodes[node_id.0].flags.set_cutset(true);
             } else if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_exact() {
                 self.nodes[node_id.0].flags.set_cutset(true);
+                self.cutset.push(*node_id);
             }
         }
 
-- 
2.43.0


From 8eaa8d036088df36601f164e9199dd6fd60f8baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 3/8] fix: do not overflow on problems with a negative initial
 value

The root subproblem has ub = isize::MAX: subtracting a negative root value
overflowed.
---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 318c5cf..ae1bf6d 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -227,7 +227,7 @@ where
             best: None,
             inbound: None,
             value_bot: isize::MIN,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
         input
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index 7685773..429dff2 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -252,7 +252,7 @@ where
             depth: root_depth,
             value_bot: isize::MIN,
             theta: isize::MAX,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
 
-- 
2.43.0


From 8c8ba36cf89f9cc5b04147e0b0c112059e30652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 4/8] fix: report a valid upper bound when the search is
 interrupted

The bound ignored the open nodes as soon as one node was being processed,
ignored the incumbent, and was overwritten with the lower bound by the next
thread that found the (just cleared) fringe empty.
---
 src/solver/barrier.rs  | 9 +++++----
 src/solver/parallel.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index ce95131..4b3b59d 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -335,7 +335,7 @@ where
         }
 
         // Are we done ?
-        if critical.ongoing == 0 && critical.fringe.is_empty() {
+        if !critical.interrupted && critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
             return WorkLoad::Complete;
         }
@@ -346,7 +346,7 @@ where
         } else if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
+            let ongoing_ub = if critical.ongoing > 0 {
                 critical
                     .upper_bounds
                     .iter()
@@ -355,9 +355,10 @@ where
                     .max()
                     .unwrap_or(isize::MAX)
             } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
+                isize::MIN
             };
+            let open_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = ongoing_ub.max(open_ub).max(critical.best_lb);
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index c5a68f4..b264d11 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -305,7 +305,7 @@ where
         let mut critical = shared.critical.lock();
 
         // Are we done ?
-        if critical.ongoing == 0 && critical.fringe.is_empty() {
+        if !critical.interrupted && critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
             return WorkLoad::Complete;
         }
@@ -316,7 +316,7 @@ where
         } else if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
+            let ongoing_ub = if critical.ongoing > 0 {
                 critical
                     .upper_bounds
                     .iter()
@@ -325,9 +325,10 @@ where
                     .max()
                     .unwrap_or(isize::MAX)
             } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
+                isize::MIN
             };
+            let open_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = ongoing_ub.max(open_ub).max(critical.best_lb);
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
-- 
2.43.0


From 42c5e2787cfa62c10800b0d40ecc6074ae11d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 5/8] fix: with_nb_threads must resize the per-thread upper
 bounds

A thread whose index was beyond the number of hardware threads panicked while
registering its node, leaving the other threads waiting forever.
---
 src/solver/barrier.rs  | 1 +
 src/solver/parallel.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 4b3b59d..e3e6a8b 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -190,6 +190,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.get_mut().upper_bounds.resize(nb_threads, isize::MAX);
         self
     }
 
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index b264d11..cdfc795 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -173,6 +173,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.get_mut().upper_bounds.resize(nb_threads, isize::MAX);
         self
     }
 
-- 
2.43.0


From a5988fc186bb9623a5c6f900a77af3603708af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 6/8] fix: the gap of an infeasible or unsolved instance must
 not overflow

isize::MIN (no solution) has no absolute value as an isize; and a gap of 0/0
was reported as NaN.
---
 src/xputils.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xputils.rs b/src/xputils.rs
index 36cf991..cd99f8d 100644
--- a/src/xputils.rs
+++ b/src/xputils.rs
@@ -169,8 +169,11 @@ where
 }
 
 fn gap(lb: isize, ub: isize) -> f32 {
-    let aub = ub.abs();
-    let alb = lb.abs();
+    if lb == ub {
+        return 0.0;
+    }
+    let aub = ub.unsigned_abs();
+    let alb = lb.unsigned_abs();
     let u = aub.max(alb);
     let l = aub.min(alb);
 
-- 
2.43.0


From f3e9f6760f3d3e50670383cd5ddcd77a3ff1a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 7/8] fix: name the accepted values in the cutset and solver
 parsing errors

---
 src/prelude.rs | 2 +-
 src/xputils.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index 5494e34..a2f4dfc 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -144,7 +144,7 @@ impl FromStr for CutsetType {
         match s {
             "lel" => Ok(Self::LastExactLayer),
             "frontier" => Ok(Self::Frontier),
-            _ => Err("The only supported frontier types are 'parallel' and 'barrier'"),
+            _ => Err("The only supported cutset types are 'lel' and 'frontier'"),
         }
     }
 }
diff --git a/src/xputils.rs b/src/xputils.rs
index cd99f8d..dde30c1 100644
--- a/src/xputils.rs
+++ b/src/xputils.rs
@@ -50,7 +50,7 @@ impl FromStr for SolverType {
         match s {
             "parallel" => Ok(Self::Parallel),
             "barrier" => Ok(Self::Barrier),
-            _ => Err("The only supported frontier types are 'parallel' and 'barrier'"),
+            _ => Err("The only supported solver types are 'parallel' and 'barrier'"),
         }
     }
 }
-- 
2.43.0


From e55a191cab214641cfd3450d2270277bde30e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 8/8] fix: a solver configured with no thread must still
 explore the problem

---
 src/solver/barrier.rs  | 5 +++--
 src/solver/parallel.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index e3e6a8b..659c8f3 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -154,6 +154,7 @@ where
         cutset_type: CutsetType,
         nb_threads: usize,
     ) -> Self {
+        let nb_threads = nb_threads.max(1); // without worker, nothing would be explored
         let mut barriers = vec![];
         for _ in 0..=problem.nb_variables() {
             barriers.push(RwLock::new(Default::default()));
@@ -189,8 +190,8 @@ where
     }
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
-        self.nb_threads = nb_threads;
-        self.shared.critical.get_mut().upper_bounds.resize(nb_threads, isize::MAX);
+        self.nb_threads = nb_threads.max(1);
+        self.shared.critical.get_mut().upper_bounds.resize(self.nb_threads, isize::MAX);
         self
     }
 
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index cdfc795..f45a5a0 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -146,6 +146,7 @@ where
         fringe: &'a mut F,
         nb_threads: usize,
     ) -> Self {
+        let nb_threads = nb_threads.max(1); // without worker, nothing would be explored
         ParallelSolver {
             shared: Shared {
                 problem,
@@ -172,8 +173,8 @@ where
     }
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
-        self.nb_threads = nb_threads;
-        self.shared.critical.get_mut().upper_bounds.resize(nb_threads, isize::MAX);
+        self.nb_threads = nb_threads.max(1);
+        self.shared.critical.get_mut().upper_bounds.resize(self.nb_threads, isize::MAX);
         self
     }
 
-- 
2.43.0

