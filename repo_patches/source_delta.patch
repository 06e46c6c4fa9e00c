From 98c4727b29357a29d7ae60d3058121fe0d777cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 1/4] fix: never sample a transition with null intensity

---
 src/params.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index 71395af..24c05fa 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -231,24 +231,21 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
                 let lambda = cim[[u, state, state]] * -1.0;
                 let urand: f64 = rng.gen_range(0.0..=1.0);
 
-                let next_state = cim.slice(s![u, state, ..]).map(|x| x / lambda).iter().fold(
-                    (0, 0.0),
-                    |mut acc, ele| {
-                        if &acc.1 + ele < urand && ele > &0.0 {
-                            acc.0 += 1;
+                // Select the first reachable state whose cumulative probability covers `urand`.
+                // States with a null intensity are not reachable. If the rounding keeps the
+                // cumulative probability below `urand`, the last reachable state is selected; if
+                // no state is reachable (absorbing state) the node keeps its state.
+                let mut cumulative_probability = 0.0;
+                let mut next_state = state;
+                for (idx, rate) in cim.slice(s![u, state, ..]).iter().enumerate() {
+                    if rate > &0.0 {
+                        next_state = idx;
+                        cumulative_probability += rate / lambda;
+                        if cumulative_probability >= urand {
+                            break;
                         }
-                        if ele > &0.0 {
-                            acc.1 += ele;
-                        }
-                        acc
-                    },
-                );
-
-                let next_state = if next_state.0 < state {
-                    next_state.0
-                } else {
-                    next_state.0 + 1
-                };
+                    }
+                }
 
                 let next_state = StateType::Discrete(next_state);
                 trace!(
-- 
2.43.0


From f0754788100089795fad9fe3b2523e54496456d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 2/4] fix: accrue the instantaneous reward of the state
 occupied before each transition

---
 src/reward/reward_evaluation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 5861e75..a334b23 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -219,7 +219,11 @@ impl RewardEvaluation for MonteCarloReward {
                                 / discount_factor
                         }
                     };
-                    ret += discount * r.instantaneous_reward;
+                    // Between two transitions the process stays in `previous.state`.
+                    ret += discount
+                        * reward_function
+                            .call(&previous.state, None)
+                            .instantaneous_reward;
                     ret += match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => 1.0,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-- 
2.43.0


From 9b6e37fea74f4995da86a130a333b988b76a7278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 3/4] fix: reject cims with negative or undefined intensities

---
 src/params.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/params.rs b/src/params.rs
index 24c05fa..6593f98 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -311,11 +311,25 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             )));
         }
 
+        // Check if the intensities outside the diagonal of each cim are non-negative
+        if cim
+            .indexed_iter()
+            .any(|((_, row, col), x)| row != col && !(x >= &0.0))
+        {
+            warn!(
+                "The intensities of each cim for node {} must be non-negative",
+                self.get_label()
+            );
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The off-diagonal values of each cim must be non-negative",
+            )));
+        }
+
         // Check if each row sum up to 0
         if cim
             .sum_axis(Axis(2))
             .iter()
-            .any(|x| f64::abs(x.clone()) > f64::EPSILON.sqrt())
+            .any(|x| !(f64::abs(x.clone()) <= f64::EPSILON.sqrt()))
         {
             warn!(
                 "The sum of each row of the cim for node {} must be 0",
-- 
2.43.0


From ac9902a3b57fa0c3c9e81ebfcdd79d8ad99039c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 4/4] fix: drop the parameters of nodes whose parents are
 discarded

---
 src/process/ctbn.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/process/ctbn.rs b/src/process/ctbn.rs
index c05a540..fbe14ef 100644
--- a/src/process/ctbn.rs
+++ b/src/process/ctbn.rs
@@ -160,6 +160,18 @@ impl CtbnNetwork {
 
         return array_state;
     }
+
+    /// Reset the parameters of each node that has at least one parent: they are not meaningful
+    /// once the current edges are discarded.
+    fn reset_conditional_nodes(&mut self) {
+        if let Some(network) = &self.adj_matrix {
+            for (idx, node) in self.nodes.iter_mut().enumerate() {
+                if network.column(idx).iter().any(|x| x > &0) {
+                    node.reset_params();
+                }
+            }
+        }
+    }
     /// Get the Adjacency Matrix.
     pub fn get_adj_matrix(&self) -> Option<&Array2<u16>> {
         self.adj_matrix.as_ref()
@@ -168,6 +180,7 @@ impl CtbnNetwork {
 
 impl process::NetworkProcess for CtbnNetwork {
     fn initialize_adj_matrix(&mut self) {
+        self.reset_conditional_nodes();
         self.adj_matrix = Some(Array2::<u16>::zeros(
             (self.nodes.len(), self.nodes.len()).f(),
         ));
@@ -175,6 +188,7 @@ impl process::NetworkProcess for CtbnNetwork {
 
     fn add_node(&mut self, mut n: Params) -> Result<usize, process::NetworkError> {
         n.reset_params();
+        self.reset_conditional_nodes();
         self.adj_matrix = Option::None;
         self.nodes.push(n);
         Ok(self.nodes.len() - 1)
-- 
2.43.0

