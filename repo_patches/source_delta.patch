From 6034c6d5b70ab2f0ce70846370d29a531a541609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 01/12] fix: keep inactive stake out of the agents' hands when
 normalising stake

---
 logic/sim.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index f39d5af..7e0ed0f 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -122,7 +122,7 @@ class Simulation(Model):
 
         if total_stake != 1:
             # normalize stake values so that they are expressed as relative stakes
-            total_stake = self.normalize_agent_stake(total_stake)
+            total_stake = self.normalize_agent_stake(total_stake, args['inactive_stake_fraction'])
         self.total_stake = total_stake
         self.perceived_active_stake = total_stake
 
@@ -175,18 +175,19 @@ class Simulation(Model):
             self.schedule.add(agent)
         return total_stake
 
-    def normalize_agent_stake(self, total_stake):
+    def normalize_agent_stake(self, total_stake, inactive_stake_fraction=0):
         """
         Normalize agent stakes so that the total stake of the system is equal to 1.
         @param total_stake: the total stake of the system prior to normalization (including agent stake and inactive stake)
+        @param inactive_stake_fraction: the fraction of the total stake that does not belong to any of the agents
         """
-        norm_total_stake = 0
+        norm_total_stake = inactive_stake_fraction
         for agent in self.schedule.agents:
             agent.stake /= total_stake
             norm_total_stake += agent.stake
         if norm_total_stake != 1:
             # add (or subtract) tiny value from the last agent's stake to account for floating point errors and make
-            # sure that the sum of all agent stakes is equal to 1
+            # sure that the sum of all agent stakes (and the inactive stake) is equal to 1
             flt_error = 1 - norm_total_stake
             agent.stake += flt_error
             norm_total_stake += flt_error
-- 
2.43.0


From 291f89cdc05c124b61725b5a1fceb8491535f8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 02/12] fix: give the CIP-7 reward scheme default parameters so
 that it can be used in a simulation

---
 logic/reward_schemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index b23274b..d1156be 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -76,7 +76,7 @@ class FlatPledgeBenefitRSS(RSS):
 
 
 class CurvePledgeBenefitRSS(RSS):  # CIP-7
-    def __init__(self, k, a0, crossover_factor, curve_root):
+    def __init__(self, k, a0, crossover_factor=8, curve_root=3):
         super().__init__(k=k, a0=a0)
         self.crossover_factor = crossover_factor
         self.curve_root = curve_root
-- 
2.43.0


From d337006f1b02f2f361076f29d909f1f1bd03ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 03/12] fix: extend the pool rankings when a new phase
 increases k

---
 logic/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index 7e0ed0f..863b024 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -423,6 +423,10 @@ class Simulation(Model):
                     instance = self.reward_scheme
                 setattr(instance, key, values[self.current_phase])
                 change_occured = True
+        # make sure that there are still enough placeholders in the rankings in case k has increased
+        missing_placeholders = self.reward_scheme.k + 1 - len(self.pool_rankings)
+        self.pool_rankings.update([None] * missing_placeholders)
+        self.pool_rankings_myopic.update([None] * missing_placeholders)
         for pool in self.pools.values():
             pool.set_profit(reward_scheme=self.reward_scheme)
             pool.set_desirability()
-- 
2.43.0


From ef84a5b341c9b5de8970c8b7ca8d4cb6f032aba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 04/12] fix: seed the simulation's own random generator with
 the reported seed

---
 logic/sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index 863b024..1b817e1 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -44,6 +44,8 @@ class Simulation(Model):
         if seed is None:
             seed = random.randint(0, 9999999)
         super().__init__(seed=seed)
+        # use a generator that belongs to this instance and is based on the seed that gets reported
+        self.random = random.Random(seed)
 
         seq_id = args['seq_id']
         if seq_id == -1:
-- 
2.43.0


From 34a7e3d3a64e83d95a6f084d03f3ead408de7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 05/12] fix: keep delegations that arrive while an operator's
 update is pending (simultaneous activation)

---
 logic/stakeholder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/logic/stakeholder.py b/logic/stakeholder.py
index 549cfe7..6f8d202 100644
--- a/logic/stakeholder.py
+++ b/logic/stakeholder.py
@@ -350,13 +350,16 @@ class Stakeholder(Agent):
             self.open_pool(pool_id)
 
     def update_pool(self, pool_id):
+        old_pool = self.strategy.owned_pools[pool_id]
         updated_pool = self.new_strategy.owned_pools[pool_id]
-        if updated_pool.is_private and updated_pool.stake > updated_pool.pledge:
+        # the delegations to the pool may have changed since the move was planned (in case of (semi)simultaneous activation)
+        updated_pool.delegators = old_pool.delegators.copy()
+        updated_pool.stake = old_pool.stake - (old_pool.pledge - updated_pool.pledge)
+        if updated_pool.is_private:
             # undelegate stake in case the pool turned from public to private
             self.remove_delegations(updated_pool)
         self.model.pools[pool_id] = updated_pool
         # update pool rankings
-        old_pool = self.strategy.owned_pools[pool_id]
         self.model.pool_rankings.remove(old_pool)
         self.model.pool_rankings.add(updated_pool)
         self.model.pool_rankings_myopic.remove(old_pool)
-- 
2.43.0


From 32ccc04291f3c7d1f51f48588981d6b0735bc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 06/12] fix: reject nan and inf as values of numeric
 command-line options

---
 logic/helper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index 878818c..5be2a64 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -4,7 +4,7 @@ import numpy as np
 from scipy import stats
 import csv
 import pathlib
-from math import floor, log10, fsum
+from math import floor, log10, fsum, isfinite
 from functools import lru_cache
 import json
 import matplotlib.pyplot as plt
@@ -510,21 +510,21 @@ def non_negative_int(value):
 
 def positive_float(value):
     float_value = float(value)
-    if float_value <= 0:
+    if float_value <= 0 or not isfinite(float_value):
         raise argparse.ArgumentTypeError("invalid positive float value: {}".format(value))
     return float_value
 
 
 def non_negative_float(value):
     float_value = float(value)
-    if float_value < 0:
+    if float_value < 0 or not isfinite(float_value):
         raise argparse.ArgumentTypeError("invalid non-negative float value: {}".format(value))
     return float_value
 
 
 def fraction(value):
     float_value = float(value)
-    if float_value < 0 or float_value > 1:
+    if not 0 <= float_value <= 1:
         raise argparse.ArgumentTypeError("invalid fraction value: {}".format(value))
     return float_value
 
-- 
2.43.0


From 5c0f90930c54e92a6e6b0d128dd9b6033b9e1d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 07/12] fix: do not restart the pool id sequence in run_model,
 so that ids of open pools are never reused

---
 logic/sim.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index 1b817e1..4a9e334 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -240,7 +240,6 @@ class Simulation(Model):
         :return:
         """
         self.start_time = time.time()
-        self.initialize_pool_id_seq()  # initialize pool id sequence for the new model run
         while self.schedule.steps <= self.max_iterations and self.running:
             self.step()
 
-- 
2.43.0


From 5b6dcac9ad17e2295e2df4ac304590289c1c3a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 08/12] fix: skip the placeholders of the rankings when
 computing non-myopic stake

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 5be2a64..be7eb27 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -205,7 +205,7 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     """
     rank = pool_rankings.index(pool)
     better_pools_stake_at_saturation = fsum(
-        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank]])
+        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
     rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
     return calculate_non_myopic_pool_stake_from_rank(
-- 
2.43.0


From f3d55192a7e5780552d6a2779224ab0ac14f29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 09/12] fix: do not divide by the stake of a pool that has none
 when calculating utilities

---
 logic/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index be7eb27..3fc0f69 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -282,7 +282,7 @@ def calculate_myopic_pool_desirability(margin, current_profit):
 # @lru_cache(maxsize=1024)
 def calculate_operator_utility_from_pool(pool_stake, pledge, margin, cost, reward_scheme):
     r = calculate_pool_reward(reward_scheme=reward_scheme, pool_stake=pool_stake, pool_pledge=pledge)
-    stake_fraction = pledge / pool_stake
+    stake_fraction = pledge / pool_stake if pool_stake > 0 else 0
     return calculate_operator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                operator_stake_fraction=stake_fraction)
 
@@ -290,7 +290,7 @@ def calculate_operator_utility_from_pool(pool_stake, pledge, margin, cost, rewar
 # @lru_cache(maxsize=1024)
 def calculate_delegator_utility_from_pool(stake_allocation, pool_stake, pledge, margin, cost, reward_scheme):
     r = calculate_pool_reward(reward_scheme=reward_scheme, pool_stake=pool_stake, pool_pledge=pledge)
-    stake_fraction = stake_allocation / pool_stake
+    stake_fraction = stake_allocation / pool_stake if pool_stake > 0 else 0
     return calculate_delegator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                 delegator_stake_fraction=stake_fraction)
 
-- 
2.43.0


From f21f03fa7331e8a75e731b6c4271b96f10c65e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 10/12] fix: reject non-positive values of
 --iterations_after_convergence

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 3fc0f69..39a8ca3 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -581,7 +581,7 @@ def add_script_arguments(parser):
     parser.add_argument('--inactive_stake_fraction_known', type=bool, default=False,
                         action=argparse.BooleanOptionalAction,
                         help='Is the inactive stake fraction of the system known beforehand? Default is no.')
-    parser.add_argument('--iterations_after_convergence', nargs="?", type=int, default=10,  # todo maybe make constant
+    parser.add_argument('--iterations_after_convergence', nargs="?", type=positive_int, default=10,  # todo maybe make constant
                         help='The minimum consecutive idle iterations that are required before terminations. '
                              'Default is 10.')
     parser.add_argument('--max_iterations', nargs="?", type=positive_int, default=2000,
-- 
2.43.0


From 21faa849a31bf498e7ee13adfd497ba3607a1c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 11/12] fix: keep adjusting k for the known inactive stake
 fraction in later phases

---
 logic/sim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index 4a9e334..2ff23ac 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -92,10 +92,12 @@ class Simulation(Model):
 
         self.total_phases = total_phases
         self.multi_phase_params = multi_phase_params
+        self.known_inactive_stake_fraction = 0
         if args['inactive_stake_fraction_known']:
             # The system is aware of the system's inactive stake fraction, so it inflates k (and subsequently lowers global_saturation_threshold)
             # to make it possible to end up with the original desired number of pools
-            self.reward_scheme.k = self.reward_scheme.k / (1 - args['inactive_stake_fraction'])
+            self.known_inactive_stake_fraction = args['inactive_stake_fraction']
+            self.reward_scheme.k = self.reward_scheme.k / (1 - self.known_inactive_stake_fraction)
 
         self.running = True  # for batch running and visualisation purposes
         agent_activation_orders = {
@@ -422,7 +424,11 @@ class Simulation(Model):
                 instance = self
                 if key in vars(self.reward_scheme) or '_' + key in vars(self.reward_scheme):
                     instance = self.reward_scheme
-                setattr(instance, key, values[self.current_phase])
+                value = values[self.current_phase]
+                if key == 'k':
+                    # keep inflating k if the inactive stake fraction is known
+                    value = value / (1 - self.known_inactive_stake_fraction)
+                setattr(instance, key, value)
                 change_occured = True
         # make sure that there are still enough placeholders in the rankings in case k has increased
         missing_placeholders = self.reward_scheme.k + 1 - len(self.pool_rankings)
-- 
2.43.0


From 5cc6834c145ada091a8374dcd20884c396200056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 12/12] fix: end every run properly when a phase lowers
 max_iterations below the current step

run_model stopped stepping as soon as the step count exceeded max_iterations, without step() ever seeing the
limit: the run stayed 'running' and its results were never written. step() already ends the run at the limit.
---
 logic/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index 2ff23ac..ebc5bdc 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -242,7 +242,7 @@ class Simulation(Model):
         :return:
         """
         self.start_time = time.time()
-        while self.schedule.steps <= self.max_iterations and self.running:
+        while self.running:
             self.step()
 
     def has_converged(self):
-- 
2.43.0

