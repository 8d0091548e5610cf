From 8f3938ff9d5e089fa997954fb9c3eb0c478da377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 01/34] fix: leave the inactive stake out of the agents' stakes
 when normalizing

The last agent received the whole inactive stake, so inactive stake was
never inactive and the last agent's stake was inflated.
---
 logic/sim.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index f39d5af..f9f7cf4 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -122,7 +122,9 @@ class Simulation(Model):
 
         if total_stake != 1:
             # normalize stake values so that they are expressed as relative stakes
-            total_stake = self.normalize_agent_stake(total_stake)
+            total_stake = self.normalize_agent_stake(
+                total_stake, active_stake_fraction=1 - args['inactive_stake_fraction']
+            )
         self.total_stake = total_stake
         self.perceived_active_stake = total_stake
 
@@ -175,22 +177,22 @@ class Simulation(Model):
             self.schedule.add(agent)
         return total_stake
 
-    def normalize_agent_stake(self, total_stake):
+    def normalize_agent_stake(self, total_stake, active_stake_fraction=1):
         """
         Normalize agent stakes so that the total stake of the system is equal to 1.
         @param total_stake: the total stake of the system prior to normalization (including agent stake and inactive stake)
+        @param active_stake_fraction: the fraction of the total stake that belongs to the agents
+        @return: the total stake of the system after normalization
         """
         norm_total_stake = 0
         for agent in self.schedule.agents:
             agent.stake /= total_stake
             norm_total_stake += agent.stake
-        if norm_total_stake != 1:
+        if norm_total_stake != active_stake_fraction:
             # add (or subtract) tiny value from the last agent's stake to account for floating point errors and make
-            # sure that the sum of all agent stakes is equal to 1
-            flt_error = 1 - norm_total_stake
-            agent.stake += flt_error
-            norm_total_stake += flt_error
-        return norm_total_stake
+            # sure that the sum of all agent stakes is equal to the active stake fraction
+            agent.stake += active_stake_fraction - norm_total_stake
+        return 1
 
     def initialize_pool_id_seq(self):
         self.id_seq = 0
-- 
2.43.0


From 2ede1543fe3f6fdb7802329c2c47ac1d01cbdad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 02/34] fix: apply the floating point correction of stakes to
 the richest agent

With very unequal stake distributions the correction exceeded the stake of
the last agent, whose stake could then become negative or zero.
---
 logic/sim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index f9f7cf4..7c93adb 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -189,9 +189,10 @@ class Simulation(Model):
             agent.stake /= total_stake
             norm_total_stake += agent.stake
         if norm_total_stake != active_stake_fraction:
-            # add (or subtract) tiny value from the last agent's stake to account for floating point errors and make
+            # add (or subtract) tiny value from the richest agent's stake to account for floating point errors and make
             # sure that the sum of all agent stakes is equal to the active stake fraction
-            agent.stake += active_stake_fraction - norm_total_stake
+            richest_agent = max(self.schedule.agents, key=lambda a: a.stake)
+            richest_agent.stake += active_stake_fraction - norm_total_stake
         return 1
 
     def initialize_pool_id_seq(self):
-- 
2.43.0


From 63949004add008011f86efd4c99074e8d7455d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 03/34] fix: give each simulation its own generator, seeded
 with the recorded seed

Without an explicit seed keyword (no seed, or args read from a file) the
activation order and the profiles were drawn from an unseeded generator, so the
seed in initial-state-descriptors.json did not reproduce the execution, and
simulations that lived in the same process shared one generator.
---
 logic/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index 7c93adb..911ea8b 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -44,6 +44,10 @@ class Simulation(Model):
         if seed is None:
             seed = random.randint(0, 9999999)
         super().__init__(seed=seed)
+        # mesa stores the random number generator on the class, seeded only by an explicit keyword argument, so make
+        # sure that this instance has its own generator, initialized with the seed that gets recorded for this execution
+        self._seed = seed
+        self.random = random.Random(seed)
 
         seq_id = args['seq_id']
         if seq_id == -1:
-- 
2.43.0


From ae350548dd6578ff8d8f34d80e2df0df0942ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 04/34] fix: give the CIP-7 reward scheme default values for
 its own parameters

Simulations instantiate their reward scheme with k and a0 only, so choosing
reward scheme 3 raised a TypeError.
---
 logic/reward_schemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index b23274b..d1156be 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -76,7 +76,7 @@ class FlatPledgeBenefitRSS(RSS):
 
 
 class CurvePledgeBenefitRSS(RSS):  # CIP-7
-    def __init__(self, k, a0, crossover_factor, curve_root):
+    def __init__(self, k, a0, crossover_factor=8, curve_root=3):
         super().__init__(k=k, a0=a0)
         self.crossover_factor = crossover_factor
         self.curve_root = curve_root
-- 
2.43.0


From 1529874bcff335b65fca0419c0ed08802599c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 05/34] fix: extend the pool rankings when a new phase raises k

The rankings are padded with k + 1 empty places for the initial k only, so
looking up the target pool raised an IndexError after k had increased.
---
 logic/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index 911ea8b..2945d98 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -429,6 +429,9 @@ class Simulation(Model):
                     instance = self.reward_scheme
                 setattr(instance, key, values[self.current_phase])
                 change_occured = True
+        for ranking in (self.pool_rankings, self.pool_rankings_myopic):
+            # the number of empty places in the rankings is based on k, so more may be needed in the new phase
+            ranking.update([None] * (self.reward_scheme.k + 1 - ranking.count(None)))
         for pool in self.pools.values():
             pool.set_profit(reward_scheme=self.reward_scheme)
             pool.set_desirability()
-- 
2.43.0


From b78a92b7c0571d4596db6b444ea7dd6f0cea373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 06/34] fix: ignore the empty places of the rankings when
 covering the total stake

A pool whose desirability drops to zero (e.g. after a phase change) ranks below
the empty places, so computing its non-myopic stake raised an AttributeError.
---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 878818c..c02ef06 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -205,7 +205,7 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     """
     rank = pool_rankings.index(pool)
     better_pools_stake_at_saturation = fsum(
-        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank]])
+        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
     rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
     return calculate_non_myopic_pool_stake_from_rank(
-- 
2.43.0


From 4e8404c993a5d3d6a0c8ac1292a977bc4b1d2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 07/34] fix: inflate k for the known inactive stake in every
 phase

Only the k of the first phase was inflated, later phases used the bare value.
---
 logic/sim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index 2945d98..1141d75 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -94,6 +94,8 @@ class Simulation(Model):
 
         self.total_phases = total_phases
         self.multi_phase_params = multi_phase_params
+        self.inactive_stake_fraction = args['inactive_stake_fraction']
+        self.inactive_stake_fraction_known = args['inactive_stake_fraction_known']
         if args['inactive_stake_fraction_known']:
             # The system is aware of the system's inactive stake fraction, so it inflates k (and subsequently lowers global_saturation_threshold)
             # to make it possible to end up with the original desired number of pools
@@ -427,7 +429,10 @@ class Simulation(Model):
                 instance = self
                 if key in vars(self.reward_scheme) or '_' + key in vars(self.reward_scheme):
                     instance = self.reward_scheme
-                setattr(instance, key, values[self.current_phase])
+                value = values[self.current_phase]
+                if key == 'k' and self.inactive_stake_fraction_known:
+                    value = value / (1 - self.inactive_stake_fraction)
+                setattr(instance, key, value)
                 change_occured = True
         for ranking in (self.pool_rankings, self.pool_rankings_myopic):
             # the number of empty places in the rankings is based on k, so more may be needed in the new phase
-- 
2.43.0


From 2f691eca8faefdf0e5bde616815f0ee4b0f14a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 08/34] fix: make the saved simulation object loadable

The myopic ranking was keyed by a bound method of the simulation, which is not
initialized yet when the ranking is rebuilt, so loading simulation-object.pkl
raised an AttributeError.
---
 logic/helper.py | 12 ++++++++++++
 logic/sim.py    | 15 +++------------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index c02ef06..57e806a 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -494,6 +494,18 @@ def pool_comparison_key(pool):
     return -pool.desirability, -pool.potential_profit, pool.id
 
 
+def pool_comparison_key_myopic(pool, reward_scheme):
+    """
+    Sort pools based on their myopic desirability, i.e. the one that corresponds to their current profit
+    break ties with pool id
+    """
+    if pool is None:
+        return 0, 0, 0
+    current_profit = calculate_current_profit(pool.stake, pool.pledge, pool.cost, reward_scheme)
+    myopic_desirability = calculate_myopic_pool_desirability(pool.margin, current_profit)
+    return -myopic_desirability, pool.id
+
+
 def positive_int(value):
     int_value = int(value)
     if int_value <= 0:
diff --git a/logic/sim.py b/logic/sim.py
index 1141d75..939c55f 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 import time
+import functools
 import pathlib
 import math
 import random
@@ -115,7 +116,8 @@ class Simulation(Model):
         self.pool_rankings = SortedList([None] * (self.reward_scheme.k + 1),
                                         key=hlp.pool_comparison_key)  # all pools ranked from best to worst non-myopically
         self.pool_rankings_myopic = SortedList([None] * (self.reward_scheme.k + 1),
-                                               key=self.pool_comparison_key_myopic)  # all pools ranked from best to worst myopically
+                                               key=functools.partial(hlp.pool_comparison_key_myopic,
+                                                                     reward_scheme=self.reward_scheme))  # all pools ranked from best to worst myopically
 
         total_stake = self.initialize_agents(
             args['agent_profile_distr'], args['cost_min'], args['cost_max'], args['pareto_param'],
@@ -456,14 +458,3 @@ class Simulation(Model):
         self.save_model_state_pkl()
         if self.generate_graphs:
             self.export_graphs()
-
-    def pool_comparison_key_myopic(self, pool):
-        if pool is None:
-            return 0, 0, 0
-        # sort pools based on their myopic desirability
-        # break ties with pool id
-        current_profit = hlp.calculate_current_profit(
-            pool.stake, pool.pledge, pool.cost, self.reward_scheme
-        )
-        myopic_desirability = hlp.calculate_myopic_pool_desirability(pool.margin, current_profit)
-        return -myopic_desirability, pool.id
-- 
2.43.0


From f9aa101a5838a13a616955b41436a39e8d16c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 09/34] fix: keep the current delegations when a planned pool
 update is executed

With (semi)simultaneous activation delegations can change between planning and
executing a pool update; the stale copy that got installed lost or resurrected
delegations (ending in KeyErrors), and staged delegations to a pool that had
just become private were executed anyway.
---
 logic/stakeholder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logic/stakeholder.py b/logic/stakeholder.py
index 549cfe7..dd84b27 100644
--- a/logic/stakeholder.py
+++ b/logic/stakeholder.py
@@ -351,7 +351,11 @@ class Stakeholder(Agent):
 
     def update_pool(self, pool_id):
         updated_pool = self.new_strategy.owned_pools[pool_id]
-        if updated_pool.is_private and updated_pool.stake > updated_pool.pledge:
+        # the delegations may have changed since the update was planned (in case of (semi)simultaneous activation)
+        current_pool = self.model.pools[pool_id]
+        updated_pool.delegators = dict(current_pool.delegators)
+        updated_pool.stake = current_pool.stake - (current_pool.pledge - updated_pool.pledge)
+        if updated_pool.is_private:
             # undelegate stake in case the pool turned from public to private
             self.remove_delegations(updated_pool)
         self.model.pools[pool_id] = updated_pool
-- 
2.43.0


From 8b35c633ba186cbca60ac0b16734619ce6122e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 10/34] fix: value pools without any stake instead of dividing
 by zero

With the CIP-50 scheme and a0 = 0 pools saturate at zero stake, so evaluating an
operator move raised a ZeroDivisionError.
---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 57e806a..a39f3ec 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -282,7 +282,7 @@ def calculate_myopic_pool_desirability(margin, current_profit):
 # @lru_cache(maxsize=1024)
 def calculate_operator_utility_from_pool(pool_stake, pledge, margin, cost, reward_scheme):
     r = calculate_pool_reward(reward_scheme=reward_scheme, pool_stake=pool_stake, pool_pledge=pledge)
-    stake_fraction = pledge / pool_stake
+    stake_fraction = pledge / pool_stake if pool_stake > 0 else 0
     return calculate_operator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                operator_stake_fraction=stake_fraction)
 
-- 
2.43.0


From 5d1e2d26f488bac2481d1afdb75308a729ccde37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 11/34] fix: accept reward scheme 4 in batch runs, as their
 help text says

---
 batch-run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batch-run.py b/batch-run.py
index 7420c83..dd06053 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -9,6 +9,7 @@ import numpy as np
 import logic.sim as sim
 import logic.helper as hlp
 from logic.model_reporters import ALL_MODEL_REPORTEERS
+from logic.reward_schemes import RSS_MAPPING
 
 if __name__ == "__main__":
     #multiprocessing.freeze_support()  # needed for multiprocessing to work on windows systems (comment out line to run on linux or mac / uncomment for windows) #todo is that still needed? if yes, detect os and act accordingly
@@ -44,7 +45,7 @@ if __name__ == "__main__":
                              'the original cost value of the stakeholder. Default is 40%%.')
     parser.add_argument('--stake_distr_source', nargs="?", type=str, default='Pareto',
                         help='The distribution type to use for the initial allocation of stake to the agents.')
-    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(4),
+    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(len(RSS_MAPPING)),
                         help='The reward scheme to use in the simulation. 0 for the original reward scheme of Cardano, '
                              '1 for a simplified version of it, 2 for a reward scheme with flat pledge benefit, 3 for '
                              'a reward scheme with curved pledge benefit (CIP-7) and 4 for the reward scheme of CIP-50.')
-- 
2.43.0


From 7efd2818de5cb5507d19f7f2a5ea1b0176c11de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 12/34] fix: read all the comma separated values of the stake
 distribution file

Only the first value of each row was read, although the documentation asks for
stake values separated by commas.
---
 logic/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index a39f3ec..a8b9c5d 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -31,13 +31,13 @@ def read_stake_distr_from_file(num_agents=10000, seed=42):
         with open(filename) as file:
             reader = csv.reader(file)
             for row in reader:
-                stk_dstr.append(float(row[0]))
+                stk_dstr.extend(float(value) for value in row if value.strip())
     except FileNotFoundError:
         try:
             with open(default_filename) as file:
                 reader = csv.reader(file)
                 for row in reader:
-                    stk_dstr.append(float(row[0]))
+                    stk_dstr.extend(float(value) for value in row if value.strip())
         except FileNotFoundError:
             print("Couldn't find file to read stake distribution from. Please make sure that the file exists or "
                   "use another option for the stake distribution source.")
-- 
2.43.0


From da3b9ff511bb7dae9048852c04441c8a0b528152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 13/34] fix: require a positive number of idle iterations for
 convergence

Zero made the simulation stop after one round regardless of the moves made in
it, negative values were accepted as well; the documentation asks for a natural
number.
---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index a8b9c5d..99f64a3 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -593,7 +593,7 @@ def add_script_arguments(parser):
     parser.add_argument('--inactive_stake_fraction_known', type=bool, default=False,
                         action=argparse.BooleanOptionalAction,
                         help='Is the inactive stake fraction of the system known beforehand? Default is no.')
-    parser.add_argument('--iterations_after_convergence', nargs="?", type=int, default=10,  # todo maybe make constant
+    parser.add_argument('--iterations_after_convergence', nargs="?", type=positive_int, default=10,  # todo maybe make constant
                         help='The minimum consecutive idle iterations that are required before terminations. '
                              'Default is 10.')
     parser.add_argument('--max_iterations', nargs="?", type=positive_int, default=2000,
-- 
2.43.0


From caa83c7d7c6b575145e4d00d24e7e18e6f5d7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 14/34] fix: tolerate floating point errors when checking if
 the top pools suffice

k times 1/k is slightly less than 1 in floating point for some k (e.g. 49, 98,
103), so the pool that ranks k + 1 was expected to be saturated as well.
---
 logic/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 99f64a3..fca3900 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -207,7 +207,8 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     better_pools_stake_at_saturation = fsum(
         [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
-    rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
+    # (rounding the difference to 12 decimal digits to avoid floating point errors)
+    rank_in_top_pools = round(total_stake - better_pools_stake_at_saturation, 12) > 0
     return calculate_non_myopic_pool_stake_from_rank(
         pool_pledge=pool.pledge,
         pool_stake=pool.stake,
-- 
2.43.0


From 83889d66a3869b1ad0334753cd974569b35e1f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 15/34] fix: reject nan and infinity as values of numerical
 arguments

They passed the range checks of the argument types, although only real numbers
are documented as accepted.
---
 logic/helper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index fca3900..0a0f7cb 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -4,7 +4,7 @@ import numpy as np
 from scipy import stats
 import csv
 import pathlib
-from math import floor, log10, fsum
+from math import floor, log10, fsum, inf
 from functools import lru_cache
 import json
 import matplotlib.pyplot as plt
@@ -523,21 +523,21 @@ def non_negative_int(value):
 
 def positive_float(value):
     float_value = float(value)
-    if float_value <= 0:
+    if not 0 < float_value < inf:
         raise argparse.ArgumentTypeError("invalid positive float value: {}".format(value))
     return float_value
 
 
 def non_negative_float(value):
     float_value = float(value)
-    if float_value < 0:
+    if not 0 <= float_value < inf:
         raise argparse.ArgumentTypeError("invalid non-negative float value: {}".format(value))
     return float_value
 
 
 def fraction(value):
     float_value = float(value)
-    if float_value < 0 or float_value > 1:
+    if not 0 <= float_value <= 1:
         raise argparse.ArgumentTypeError("invalid fraction value: {}".format(value))
     return float_value
 
-- 
2.43.0


From 71074ee85203350c610eaaabe9fa0cfaeb1fe1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 16/34] fix: do not reuse pool ids when running a simulation
 that was already stepped

run_model() restarted the pool id sequence, so pools opened by preceding calls
of step() were overwritten by new ones with the same ids.
---
 logic/sim.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index 939c55f..4b6e368 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -248,7 +248,6 @@ class Simulation(Model):
         :return:
         """
         self.start_time = time.time()
-        self.initialize_pool_id_seq()  # initialize pool id sequence for the new model run
         while self.schedule.steps <= self.max_iterations and self.running:
             self.step()
 
-- 
2.43.0


From 26c8a915eec442a17bc59bf253c8bba0b5e00eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 17/34] fix: tolerate floating point errors when looking for
 the target pool

For k = 49, 98, 103, ... k saturated pools were not seen as covering the whole
stake, so the pool that ranks k + 1 was returned.
---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 0a0f7cb..39af7f8 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -475,7 +475,7 @@ def find_target_pool(pools_ranked, target_stake, reward_scheme):
     covered_stake = 0
     top_pools = []  # the pools that can collectively cover the target amount of stake if saturated (and without getting over-saturated)
     for pool in pools_ranked:
-        if covered_stake >= target_stake:
+        if round(target_stake - covered_stake, 12) <= 0:  # rounding to avoid floating point errors
             break
         top_pools.append(pool)
         if pool is None:
-- 
2.43.0


From 1aa3e32cca59580b4a6b12bed041655be649d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 18/34] fix: write the header of a shared results file exactly
 once

Processes of a batch run that finish at the same time could each find the file
empty and add the header, so that it appeared more than once.
---
 logic/helper.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/logic/helper.py b/logic/helper.py
index 39af7f8..815fc2c 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -3,7 +3,9 @@ from numpy.random import default_rng
 import numpy as np
 from scipy import stats
 import csv
+import os
 import pathlib
+import uuid
 from math import floor, log10, fsum, inf
 from functools import lru_cache
 import json
@@ -356,6 +358,17 @@ def write_seq_id(seq, filename='sequence.dat'):
 
 
 def write_to_csv(filepath, header, row):
+    if not os.path.exists(filepath):
+        # more processes may be about to create the same file (e.g. in batch runs), so make sure that it appears along
+        # with its header and that only one of them adds it
+        new_filepath = '{}.{}'.format(filepath, uuid.uuid4())
+        export_csv_file([header], new_filepath)
+        try:
+            os.link(new_filepath, filepath)
+        except FileExistsError:
+            pass
+        finally:
+            os.remove(new_filepath)
     with open(filepath, 'a', newline='') as f:
         writer = csv.writer(f)
         if f.tell() == 0:
-- 
2.43.0


From 96295c5101b74071e046cad835d004c2aafe9d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 19/34] fix: keep the names of batch run instances within the
 limits of file systems

A batch run with many variable parameters failed if their values had many digits,
because the folder of an instance lists all of them in its name.
---
 custom_batchrunner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 4bb3f75..2ae02f3 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -21,6 +21,9 @@ import pathlib
 from mesa.model import Model
 import logic.helper as hlp
 
+MAX_EXECUTION_ID_LENGTH = 200  # the names of files and folders that are based on it can have up to 255 characters
+
+
 def custom_batch_run(
     model_cls,
     parameters,
@@ -73,6 +76,7 @@ def custom_batch_run(
     for i, params in enumerate(final_kwargs_list):
         seq_id = i + 1
         execution_id = '-'.join([str(key) + '-' + str(value) for key, value in params.items() if key not in fixed_params])
+        execution_id = execution_id[:MAX_EXECUTION_ID_LENGTH]
         params.update({'seq_id': seq_id, 'execution_id': execution_id})
     process_func = partial(
         _model_run_func,
-- 
2.43.0


From b4fdac51331a2176653079c005a0ed1f1d93406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 20/34] fix: use the default value of options that are given
 without a value

They were set to None instead, which made the simulation fail.
---
 logic/helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/helper.py b/logic/helper.py
index 815fc2c..3c4907b 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -629,3 +629,7 @@ def add_script_arguments(parser):
     parser.add_argument('--profile_code', type=bool, default=False, action=argparse.BooleanOptionalAction,
                         help='If True then profiling is performed and the 10 most time-consuming lines of code are '
                              'displayed ')
+    # if an option is given without a value then its default value is used
+    for action in parser._actions:
+        if action.nargs == "?":
+            action.const = action.default
-- 
2.43.0


From ecc9da21fa71b57482c68838d1bb05475c354a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 21/34] fix: validate the arguments of batch runs like those of
 single runs

Values outside their documented domains (e.g. negative costs or zero agents) were
accepted and only failed, or led to meaningless results, during the simulations.
---
 batch-run.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/batch-run.py b/batch-run.py
index dd06053..c31af6c 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -18,42 +18,42 @@ if __name__ == "__main__":
     parser = argparse.ArgumentParser(description='Pooling Games Batch Run')
     parser.add_argument('--execution_id', nargs="?", type=str, default='batch-run',
                         help='The identifier of this execution, to be used for naming the output files.')
-    parser.add_argument('--seed', nargs="?", type=int, default=None,
+    parser.add_argument('--seed', nargs="?", type=hlp.non_negative_int, default=None,
                         help='Seed for reproducibility. Default is None, which means that a seed will be generated '
                              'randomly and then used for all executions of the batch run.')
-    parser.add_argument('--max_iterations', nargs="?", type=int, default=2000,
+    parser.add_argument('--max_iterations', nargs="?", type=hlp.positive_int, default=2000,
                         help='The maximum number of iterations of the system. Default is 1000.')
-    parser.add_argument('--n', nargs="*", type=int, default=1000,
+    parser.add_argument('--n', nargs="*", type=hlp.positive_int, default=1000,
                         help='The number of agents (natural number). Default is 100.')
-    parser.add_argument('--k', nargs="*", type=int, default=[100, 200, 300],
+    parser.add_argument('--k', nargs="*", type=hlp.positive_int, default=[100, 200, 300],
                         help='The k value of the system (natural number). Default is 10.')
-    parser.add_argument('--a0', nargs="*", type=float, default=0.3,
+    parser.add_argument('--a0', nargs="*", type=hlp.non_negative_float, default=0.3,
                         help='The a0 value of the system (decimal number between 0 and 1). Default is 0.3')
-    parser.add_argument('--inactive_stake_fraction', nargs="*", type=float, default=0,
+    parser.add_argument('--inactive_stake_fraction', nargs="*", type=hlp.fraction, default=0,
                         help='The fraction of the total stake that remains inactive (does not belong to any of the agents). Default is 0.')
     parser.add_argument('--inactive_stake_fraction_known', type=bool, default=False,
                         action=argparse.BooleanOptionalAction,
                         help='Is the inactive stake fraction of the system known beforehand? Default is no.')
-    parser.add_argument('--pareto_param', nargs="*", type=float, default=2.0,
+    parser.add_argument('--pareto_param', nargs="*", type=hlp.positive_float, default=2.0,
                         help='The shape value of the Pareto distribution for the initial stake allocation.')
-    parser.add_argument('--cost_min', nargs="*", type=float, default=1e-5,
+    parser.add_argument('--cost_min', nargs="*", type=hlp.non_negative_float, default=1e-5,
                         help='The minimum possible cost for operating a stake pool. Default is 1e-4.')
-    parser.add_argument('--cost_max', nargs="*", type=float, default=1e-4,
+    parser.add_argument('--cost_max', nargs="*", type=hlp.non_negative_float, default=1e-4,
                         help='The maximum possible cost for operating a stake pool. Default is 2e-3.')
-    parser.add_argument('--extra_pool_cost_fraction', nargs="*", type=float, default=0.4,
+    parser.add_argument('--extra_pool_cost_fraction', nargs="*", type=hlp.non_negative_float, default=0.4,
                         help='The factor that determines how much an additional pool costs as a fraction of '
                              'the original cost value of the stakeholder. Default is 40%%.')
-    parser.add_argument('--stake_distr_source', nargs="?", type=str, default='Pareto',
+    parser.add_argument('--stake_distr_source', nargs="?", type=str.lower, default='pareto', choices=['pareto', 'flat', 'disparity', 'file'],
                         help='The distribution type to use for the initial allocation of stake to the agents.')
     parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(len(RSS_MAPPING)),
                         help='The reward scheme to use in the simulation. 0 for the original reward scheme of Cardano, '
                              '1 for a simplified version of it, 2 for a reward scheme with flat pledge benefit, 3 for '
                              'a reward scheme with curved pledge benefit (CIP-7) and 4 for the reward scheme of CIP-50.')
-    parser.add_argument('--relative_utility_threshold', nargs="+", type=float, default=0,
+    parser.add_argument('--relative_utility_threshold', nargs="+", type=hlp.non_negative_float, default=0,
                         help='The utility increase ratio under which moves are disregarded. Default is 0%%.')
-    parser.add_argument('--absolute_utility_threshold', nargs="+", type=float, default=0,
+    parser.add_argument('--absolute_utility_threshold', nargs="+", type=hlp.non_negative_float, default=0,
                         help='The utility threshold under which moves are disregarded. Default is 1e-9.')
-    parser.add_argument('--iterations_after_convergence', type=int, default=10,
+    parser.add_argument('--iterations_after_convergence', type=hlp.positive_int, default=10,
                         help='The minimum consecutive idle iterations that are required before terminations. '
                              'Default is 10.')
     parser.add_argument('--agent_profile_distr', nargs="*", type=float, default=[1, 0, 0],
-- 
2.43.0


From 53b191b97e512cfac0926b22ed972d5a5142dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 22/34] fix: use the documented default of the absolute utility
 threshold in batch runs

---
 batch-run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch-run.py b/batch-run.py
index c31af6c..a327718 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -51,7 +51,7 @@ if __name__ == "__main__":
                              'a reward scheme with curved pledge benefit (CIP-7) and 4 for the reward scheme of CIP-50.')
     parser.add_argument('--relative_utility_threshold', nargs="+", type=hlp.non_negative_float, default=0,
                         help='The utility increase ratio under which moves are disregarded. Default is 0%%.')
-    parser.add_argument('--absolute_utility_threshold', nargs="+", type=hlp.non_negative_float, default=0,
+    parser.add_argument('--absolute_utility_threshold', nargs="+", type=hlp.non_negative_float, default=1e-9,
                         help='The utility threshold under which moves are disregarded. Default is 1e-9.')
     parser.add_argument('--iterations_after_convergence', type=hlp.positive_int, default=10,
                         help='The minimum consecutive idle iterations that are required before terminations. '
-- 
2.43.0


From 554b47dc4989a5b8e73277ef6f2f4a2d6b994f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 23/34] fix: handle options of batch runs that are given
 without a value

Options that take many values led to a batch without any instances, while the others
were set to None.
---
 batch-run.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/batch-run.py b/batch-run.py
index a327718..bff38f3 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -23,24 +23,24 @@ if __name__ == "__main__":
                              'randomly and then used for all executions of the batch run.')
     parser.add_argument('--max_iterations', nargs="?", type=hlp.positive_int, default=2000,
                         help='The maximum number of iterations of the system. Default is 1000.')
-    parser.add_argument('--n', nargs="*", type=hlp.positive_int, default=1000,
+    parser.add_argument('--n', nargs="+", type=hlp.positive_int, default=1000,
                         help='The number of agents (natural number). Default is 100.')
-    parser.add_argument('--k', nargs="*", type=hlp.positive_int, default=[100, 200, 300],
+    parser.add_argument('--k', nargs="+", type=hlp.positive_int, default=[100, 200, 300],
                         help='The k value of the system (natural number). Default is 10.')
-    parser.add_argument('--a0', nargs="*", type=hlp.non_negative_float, default=0.3,
+    parser.add_argument('--a0', nargs="+", type=hlp.non_negative_float, default=0.3,
                         help='The a0 value of the system (decimal number between 0 and 1). Default is 0.3')
-    parser.add_argument('--inactive_stake_fraction', nargs="*", type=hlp.fraction, default=0,
+    parser.add_argument('--inactive_stake_fraction', nargs="+", type=hlp.fraction, default=0,
                         help='The fraction of the total stake that remains inactive (does not belong to any of the agents). Default is 0.')
     parser.add_argument('--inactive_stake_fraction_known', type=bool, default=False,
                         action=argparse.BooleanOptionalAction,
                         help='Is the inactive stake fraction of the system known beforehand? Default is no.')
-    parser.add_argument('--pareto_param', nargs="*", type=hlp.positive_float, default=2.0,
+    parser.add_argument('--pareto_param', nargs="+", type=hlp.positive_float, default=2.0,
                         help='The shape value of the Pareto distribution for the initial stake allocation.')
-    parser.add_argument('--cost_min', nargs="*", type=hlp.non_negative_float, default=1e-5,
+    parser.add_argument('--cost_min', nargs="+", type=hlp.non_negative_float, default=1e-5,
                         help='The minimum possible cost for operating a stake pool. Default is 1e-4.')
-    parser.add_argument('--cost_max', nargs="*", type=hlp.non_negative_float, default=1e-4,
+    parser.add_argument('--cost_max', nargs="+", type=hlp.non_negative_float, default=1e-4,
                         help='The maximum possible cost for operating a stake pool. Default is 2e-3.')
-    parser.add_argument('--extra_pool_cost_fraction', nargs="*", type=hlp.non_negative_float, default=0.4,
+    parser.add_argument('--extra_pool_cost_fraction', nargs="+", type=hlp.non_negative_float, default=0.4,
                         help='The factor that determines how much an additional pool costs as a fraction of '
                              'the original cost value of the stakeholder. Default is 40%%.')
     parser.add_argument('--stake_distr_source', nargs="?", type=str.lower, default='pareto', choices=['pareto', 'flat', 'disparity', 'file'],
@@ -56,12 +56,17 @@ if __name__ == "__main__":
     parser.add_argument('--iterations_after_convergence', type=hlp.positive_int, default=10,
                         help='The minimum consecutive idle iterations that are required before terminations. '
                              'Default is 10.')
-    parser.add_argument('--agent_profile_distr', nargs="*", type=float, default=[1, 0, 0],
+    parser.add_argument('--agent_profile_distr', nargs="+", type=float, default=[1, 0, 0],
                         help='The probability distribution for assigning different profiles to the agents. Default is [1, 0, 0], i.e. 100%% non-myopic agents.')
 
     # args missing from here: agent_profile_distr, generate graphs, metrics, input_from_file, agent_activation_order
     # make sure that all args are fine with batch run
 
+    # if an option that takes at most one value is given without it then its default value is used
+    for action in parser._actions:
+        if action.nargs == "?":
+            action.const = action.default
+
     args_dict = vars(parser.parse_args())
 
     batch_run_id = args_dict["execution_id"]
-- 
2.43.0


From f61e9458bb0dc7dafa66fa8fb7a78db7a8abf6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 24/34] fix: use the agent profile weights that are given for a
 batch run

They were parsed but never passed on to the simulations.
---
 batch-run.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/batch-run.py b/batch-run.py
index bff38f3..2a26c0b 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -10,6 +10,7 @@ import logic.sim as sim
 import logic.helper as hlp
 from logic.model_reporters import ALL_MODEL_REPORTEERS
 from logic.reward_schemes import RSS_MAPPING
+from logic.stakeholder_profiles import PROFILE_MAPPING
 
 if __name__ == "__main__":
     #multiprocessing.freeze_support()  # needed for multiprocessing to work on windows systems (comment out line to run on linux or mac / uncomment for windows) #todo is that still needed? if yes, detect os and act accordingly
@@ -56,10 +57,10 @@ if __name__ == "__main__":
     parser.add_argument('--iterations_after_convergence', type=hlp.positive_int, default=10,
                         help='The minimum consecutive idle iterations that are required before terminations. '
                              'Default is 10.')
-    parser.add_argument('--agent_profile_distr', nargs="+", type=float, default=[1, 0, 0],
+    parser.add_argument('--agent_profile_distr', nargs=len(PROFILE_MAPPING), type=hlp.non_negative_float, default=[1, 0, 0],
                         help='The probability distribution for assigning different profiles to the agents. Default is [1, 0, 0], i.e. 100%% non-myopic agents.')
 
-    # args missing from here: agent_profile_distr, generate graphs, metrics, input_from_file, agent_activation_order
+    # args missing from here: generate graphs, metrics, input_from_file, agent_activation_order
     # make sure that all args are fine with batch run
 
     # if an option that takes at most one value is given without it then its default value is used
@@ -77,7 +78,7 @@ if __name__ == "__main__":
     if seed is None:
         seed = random.randint(0, 9999999)
 
-    args_dict.pop("agent_profile_distr") #todo deal with this instead of popping
+    agent_profile_distr = args_dict.pop("agent_profile_distr")
 
     params = {}
     variable_params = {}
@@ -87,6 +88,10 @@ if __name__ == "__main__":
         if isinstance(arg_value, list) and len(arg_value) > 1:
             variable_params[arg_name] = arg_value
 
+    if agent_profile_distr != [1, 0, 0]:
+        # the weights form one value, which is the same for all instances
+        params["agent_profile_distr"] = [tuple(agent_profile_distr)]
+
     print("Variable parameter(s): ", variable_params)
 
     start_time = time.time()
-- 
2.43.0


From 6bf68f431e79a0d9561b9bf9aea1fd837d3091eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 25/34] fix: pledge rate and homogeneity of pools without any
 stake are zero instead of a division by zero

---
 logic/model_reporters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/model_reporters.py b/logic/model_reporters.py
index 5c14712..8204931 100644
--- a/logic/model_reporters.py
+++ b/logic/model_reporters.py
@@ -207,7 +207,7 @@ def get_pledge_rate(model):
         return 0
     total_active_stake = fsum([pool.stake for pool in pools])
     total_pledge = fsum([pool.pledge for pool in pools])
-    return total_pledge / total_active_stake
+    return total_pledge / total_active_stake if total_active_stake > 0 else 0
 
 
 def get_homogeneity_factor(model):
@@ -226,7 +226,7 @@ def get_homogeneity_factor(model):
     ideal_area = pool_count * max_stake
     actual_area = fsum(pool_stakes)
 
-    return actual_area / ideal_area
+    return actual_area / ideal_area if ideal_area > 0 else 0
 
 
 def get_iterations(model):
-- 
2.43.0


From 0dc1157084905c19ba08257ee16533532e36fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 26/34] fix: delegating to a pool without any stake yields
 nothing instead of a division by zero

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 3c4907b..116dc26 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -293,7 +293,7 @@ def calculate_operator_utility_from_pool(pool_stake, pledge, margin, cost, rewar
 # @lru_cache(maxsize=1024)
 def calculate_delegator_utility_from_pool(stake_allocation, pool_stake, pledge, margin, cost, reward_scheme):
     r = calculate_pool_reward(reward_scheme=reward_scheme, pool_stake=pool_stake, pool_pledge=pledge)
-    stake_fraction = stake_allocation / pool_stake
+    stake_fraction = stake_allocation / pool_stake if pool_stake > 0 else 0
     return calculate_delegator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                 delegator_stake_fraction=stake_fraction)
 
-- 
2.43.0


From 0c72ed34c8a2dbc4efd764656d3171779b4d8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 27/34] fix: report the end-of-run metrics of batch instances
 that reach the iteration limit

The metrics are collected at the beginning of each round and once more when the maximum number of iterations is reached.
For instances that end that way, the results of the batch run were those of the beginning of the last round.
---
 custom_batchrunner.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 2ae02f3..eb1ad14 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -185,9 +185,12 @@ def _model_run_func(
 
     data = []
 
-    steps = list(range(0, model.schedule.steps, data_collection_period))
-    if not steps or steps[-1] != model.schedule.steps - 1:
-        steps.append(model.schedule.steps - 1)
+    # the metrics are collected at the beginning of each round, plus once more if the run ends because of the maximum number
+    # of iterations, so the last values that were collected are the ones that correspond to the end of the run
+    last_step = max([len(values) for values in model.datacollector.model_vars.values()], default=model.schedule.steps) - 1
+    steps = list(range(0, last_step + 1, data_collection_period))
+    if not steps or steps[-1] != last_step:
+        steps.append(last_step)
 
     for step in steps:
         model_data, all_agents_data = _collect_data(model, step)
@@ -202,7 +205,7 @@ def _model_run_func(
         else:
             stepdata = [{**{"Step": step}, **kwargs, **model_data}]
 
-            if step == model.schedule.steps - 1:
+            if step == last_step:
                 # write end-of-run results to file
                 header = [key for key in stepdata[0].keys() if key not in fixed_params]
                 row = [value for key, value in stepdata[0].items() if key not in fixed_params]
-- 
2.43.0


From 24434be10979a85d0de9f40109aab2e604ed0b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 28/34] fix: no further step of the interactive visualisation
 after it was stopped

---
 interactiveViz/templates/js/myruncontrol.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interactiveViz/templates/js/myruncontrol.js b/interactiveViz/templates/js/myruncontrol.js
index b9d1bf2..9d74a98 100644
--- a/interactiveViz/templates/js/myruncontrol.js
+++ b/interactiveViz/templates/js/myruncontrol.js
@@ -41,6 +41,7 @@ function ModelController(tick = 0, fps = 3, running = false, finished = false, d
     /** Stop the model */
     this.stop = function stop() {
         this.running = false;
+        clearTimeout(this.timeout) // a step may already be due
         startModelButton.firstElementChild.innerText = "Start";
     }
 
-- 
2.43.0


From 32407de4fee95ab0646b8dd3ac52b9cdc3245379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 29/34] fix: ignore answers from before a reset and do not run
 several loops at once in the visualisation

---
 interactiveViz/templates/js/myruncontrol.js | 27 ++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/interactiveViz/templates/js/myruncontrol.js b/interactiveViz/templates/js/myruncontrol.js
index 9d74a98..cb857cf 100644
--- a/interactiveViz/templates/js/myruncontrol.js
+++ b/interactiveViz/templates/js/myruncontrol.js
@@ -30,6 +30,8 @@ function ModelController(tick = 0, fps = 3, running = false, finished = false, d
     this.running = running;
     this.finished = finished;
     this.datasetNumber = datasetNumber;
+    this.pending = 0;   // requests that the server has not answered yet
+    this.outdated = 0;  // how many of them were made before the last reset
 
     /** Start the model and keep it running until stopped */
     this.start = function start() {
@@ -53,6 +55,7 @@ function ModelController(tick = 0, fps = 3, running = false, finished = false, d
     this.step = function step() {
         this.tick += 1;
         stepDisplay.innerText = this.tick;
+        this.pending += 1;
         send({ type: "get_step", step: this.tick });
     }
 
@@ -67,9 +70,23 @@ function ModelController(tick = 0, fps = 3, running = false, finished = false, d
             startModelButton.firstElementChild.innerText = "Start";
         }
         clearTimeout(this.timeout)
+        this.outdated = this.pending;
+        this.pending += 1;
         send({ type: "reset" });
     }
 
+    /**
+     * Take note of an answer of the server (they arrive in the order of the requests)
+     * @returns {boolean} whether it is about the current model, i.e. not from before the last reset */
+    this.answered = function answered() {
+        this.pending -= 1;
+        if (this.outdated > 0) {
+            this.outdated -= 1;
+            return false;
+        }
+        return true;
+    }
+
     /** Stops the model and put it into a finished state */
     this.done = function done() {
         this.stop();
@@ -83,7 +100,7 @@ function ModelController(tick = 0, fps = 3, running = false, finished = false, d
      */
     this.render = function render(data) {
         vizElements.forEach((element, index) => element.render(data[index]))
-        if (this.running) {
+        if (this.running && this.pending === 0) { // the answer to the last request triggers the next step
             this.timeout = setTimeout(() => this.step(), 1000 / this.fps);
         }
     }
@@ -154,11 +171,15 @@ ws.onmessage = function (message) {
     switch (msg["type"]) {
         case "viz_state":
             // Update visualization state
-            controller.render(msg["data"])
+            if (controller.answered()) {
+                controller.render(msg["data"])
+            }
             break;
         case "end":
             // We have reached the end of the model
-            controller.done();
+            if (controller.answered()) {
+                controller.done();
+            }
             break;
         case "model_params":
             // Create GUI elements for each model parameter and reset everything
-- 
2.43.0


From 690776ea8438f9b643850f86d5b5fdf47fa9be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 30/34] fix: define the number of pools that the interactive
 visualisation imports

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 116dc26..bf3590a 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -21,7 +21,7 @@ from logic.reward_schemes import TOTAL_EPOCH_REWARDS_R
 
 sns.set_theme()
 
-# MAX_NUM_POOLS = 1000 # potentially needed for run_viz
+MAX_NUM_POOLS = 1000  # needed for runViz
 MIN_STAKE_UNIT = 2.2e-17
 
 
-- 
2.43.0


From a24d9ecfb48f8b8b6aa91ab2192cbdc0b49057c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 31/34] fix: collect the series that the charts of the
 interactive visualisation show

---
 interactiveViz/runViz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interactiveViz/runViz.py b/interactiveViz/runViz.py
index 56d6056..37dc76b 100644
--- a/interactiveViz/runViz.py
+++ b/interactiveViz/runViz.py
@@ -53,7 +53,8 @@ model_params = {
     ),
     "extra_pool_cost_fraction": UserSettableParameter(
         "slider", "Cost factor", 0.4, 0.0, 1, 0.01
-    )
+    ),
+    "metrics": [1, 2, 6, 9, 17, 18, 21, 25, 27]  # the default ones, as well as those that the charts show
 }
 
 # todo add option for different distributions
-- 
2.43.0


From 26646de73054b33059dd9c1ad2da7e4eb2e3e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:14 +0000
Subject: [PATCH 32/34] fix: keep costs of a truncated normal distribution
 within their bounds

---
 logic/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index bf3590a..3e69cd5 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -152,7 +152,8 @@ def generate_cost_distr_nrm(num_agents, low, high, mean, stddev):
     """
     if high < low:
         raise ValueError("invalid cost_max ( < cost_min)")
-    costs = stats.truncnorm.rvs(low, high, loc=mean, scale=stddev, size=num_agents)
+    # the bounds of truncnorm refer to the standard normal distribution
+    costs = stats.truncnorm.rvs((low - mean) / stddev, (high - mean) / stddev, loc=mean, scale=stddev, size=num_agents)
     return costs
 
 
-- 
2.43.0


From 9be2816b69b1a3f2088b701f90f97cc364236c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:14 +0000
Subject: [PATCH 33/34] fix: revising the beliefs does not change the
 saturation threshold

---
 logic/sim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index 4b6e368..891da5e 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -416,7 +416,9 @@ class Simulation(Model):
         self.perceived_active_stake = active_stake
         # Revise expected number of pools, k  (note that the value of global_saturation_threshold, which is used to
         # calculate rewards, does not change in this case)
-        self.reward_scheme.k = math.ceil(round(active_stake / self.reward_scheme.global_saturation_threshold, 12))  # first rounding to 12 decimal digits to avoid floating point errors
+        global_saturation_threshold = self.reward_scheme.global_saturation_threshold
+        self.reward_scheme.k = math.ceil(round(active_stake / global_saturation_threshold, 12))  # first rounding to 12 decimal digits to avoid floating point errors
+        self.reward_scheme.global_saturation_threshold = global_saturation_threshold
         # todo if we keep method then make sure that the change of rss params is properly followed by changes in potential profits etc (see method below)
 
     def change_phase(self):
-- 
2.43.0


From 90703d14a4d3e84ff47d5eee6a019361c9bf88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:14 +0000
Subject: [PATCH 34/34] fix: an interruption can't leave an empty sequence file
 behind

---
 logic/helper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 3e69cd5..46cb52d 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -354,8 +354,11 @@ def read_seq_id(filename='sequence.dat'):
 
 
 def write_seq_id(seq, filename='sequence.dat'):
-    with open(filename, 'w') as f:
+    # replace the file in one go, so that an interruption can't leave an empty file behind
+    new_filename = '{}.{}'.format(filename, uuid.uuid4())
+    with open(new_filename, 'w') as f:
         f.write(str(seq))
+    os.replace(new_filename, filename)
 
 
 def write_to_csv(filepath, header, row):
-- 
2.43.0

