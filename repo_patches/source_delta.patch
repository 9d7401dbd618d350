From 0faed619de234dde2ccd42a7876d4c2eeae0c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 01/24] fix: do not hand the inactive stake to the last agent
 when normalising stakes

---
 logic/sim.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index f39d5af..ad63cb7 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -122,7 +122,7 @@ class Simulation(Model):
 
         if total_stake != 1:
             # normalize stake values so that they are expressed as relative stakes
-            total_stake = self.normalize_agent_stake(total_stake)
+            total_stake = self.normalize_agent_stake(total_stake, args['inactive_stake_fraction'])
         self.total_stake = total_stake
         self.perceived_active_stake = total_stake
 
@@ -175,22 +175,23 @@ class Simulation(Model):
             self.schedule.add(agent)
         return total_stake
 
-    def normalize_agent_stake(self, total_stake):
+    def normalize_agent_stake(self, total_stake, inactive_stake_fraction=0):
         """
         Normalize agent stakes so that the total stake of the system is equal to 1.
         @param total_stake: the total stake of the system prior to normalization (including agent stake and inactive stake)
+        @param inactive_stake_fraction: the fraction of the total stake that does not belong to any of the agents
         """
+        active_stake = 1 - inactive_stake_fraction
         norm_total_stake = 0
         for agent in self.schedule.agents:
             agent.stake /= total_stake
             norm_total_stake += agent.stake
-        if norm_total_stake != 1:
+        if norm_total_stake != active_stake:
             # add (or subtract) tiny value from the last agent's stake to account for floating point errors and make
-            # sure that the sum of all agent stakes is equal to 1
-            flt_error = 1 - norm_total_stake
+            # sure that the sum of all agent stakes and the inactive stake is equal to 1
+            flt_error = active_stake - norm_total_stake
             agent.stake += flt_error
-            norm_total_stake += flt_error
-        return norm_total_stake
+        return 1
 
     def initialize_pool_id_seq(self):
         self.id_seq = 0
-- 
2.43.0


From 3bf3dfe592f66636973f03224732a12fda059cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 02/24] fix: give the CIP-7 reward scheme default curve
 parameters so that it can be selected

---
 logic/reward_schemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index b23274b..d1156be 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -76,7 +76,7 @@ class FlatPledgeBenefitRSS(RSS):
 
 
 class CurvePledgeBenefitRSS(RSS):  # CIP-7
-    def __init__(self, k, a0, crossover_factor, curve_root):
+    def __init__(self, k, a0, crossover_factor=8, curve_root=3):
         super().__init__(k=k, a0=a0)
         self.crossover_factor = crossover_factor
         self.curve_root = curve_root
-- 
2.43.0


From e70d26ca72dfb8e6f5f561abd6c6eb5da81dbbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 03/24] fix: keep delegations made between an operator's
 decision and its execution

---
 logic/stakeholder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/logic/stakeholder.py b/logic/stakeholder.py
index 549cfe7..7620576 100644
--- a/logic/stakeholder.py
+++ b/logic/stakeholder.py
@@ -351,12 +351,16 @@ class Stakeholder(Agent):
 
     def update_pool(self, pool_id):
         updated_pool = self.new_strategy.owned_pools[pool_id]
-        if updated_pool.is_private and updated_pool.stake > updated_pool.pledge:
+        old_pool = self.strategy.owned_pools[pool_id]
+        # the delegations to the pool may have changed since the agent decided on the update, in case of
+        # (semi)simultaneous activation
+        updated_pool.stake = old_pool.stake - (old_pool.pledge - updated_pool.pledge)
+        updated_pool.delegators = dict(old_pool.delegators)
+        if updated_pool.is_private:
             # undelegate stake in case the pool turned from public to private
             self.remove_delegations(updated_pool)
         self.model.pools[pool_id] = updated_pool
         # update pool rankings
-        old_pool = self.strategy.owned_pools[pool_id]
         self.model.pool_rankings.remove(old_pool)
         self.model.pool_rankings.add(updated_pool)
         self.model.pool_rankings_myopic.remove(old_pool)
-- 
2.43.0


From cae9597597e47bea7d852a49a59448ecb2024d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 04/24] fix: count idle steps anew after a phase change

---
 logic/sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/sim.py b/logic/sim.py
index ad63cb7..1a1b3db 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -412,6 +412,7 @@ class Simulation(Model):
 
     def change_phase(self):
         self.current_phase += 1
+        self.consecutive_idle_steps = 0  # idle steps of the previous phase don't count towards convergence in the new one
         change_occured = False
         for pool in self.pools.values():
             self.pool_rankings.remove(pool)
-- 
2.43.0


From 616a53e9702e695d49cebb26bc57551c56de576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 05/24] fix: extend the pool rankings when k grows in a later
 phase

---
 logic/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index 1a1b3db..b66a28b 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -424,6 +424,9 @@ class Simulation(Model):
                     instance = self.reward_scheme
                 setattr(instance, key, values[self.current_phase])
                 change_occured = True
+        for rankings in (self.pool_rankings, self.pool_rankings_myopic):
+            # the rankings are padded so that there are always at least k + 1 places, even without any pools
+            rankings.update([None] * (self.reward_scheme.k + 1 - len(rankings)))
         for pool in self.pools.values():
             pool.set_profit(reward_scheme=self.reward_scheme)
             pool.set_desirability()
-- 
2.43.0


From 95733eb37bb8b0c44fa1099aad3288ba0d563845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 06/24] fix: adjust k for known inactive stake in every phase,
 not only the first

---
 logic/sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index b66a28b..c598134 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -94,6 +94,8 @@ class Simulation(Model):
             # The system is aware of the system's inactive stake fraction, so it inflates k (and subsequently lowers global_saturation_threshold)
             # to make it possible to end up with the original desired number of pools
             self.reward_scheme.k = self.reward_scheme.k / (1 - args['inactive_stake_fraction'])
+            if 'k' in multi_phase_params:
+                multi_phase_params['k'] = [k / (1 - args['inactive_stake_fraction']) for k in multi_phase_params['k']]
 
         self.running = True  # for batch running and visualisation purposes
         agent_activation_orders = {
-- 
2.43.0


From c7bb88024ec2d4f7b92c668bde1b32317e6ae583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 07/24] fix: seed the model's random generator with the
 recorded seed

---
 logic/sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/sim.py b/logic/sim.py
index c598134..c5abef3 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -44,6 +44,7 @@ class Simulation(Model):
         if seed is None:
             seed = random.randint(0, 9999999)
         super().__init__(seed=seed)
+        self.random = random.Random(seed)  # mesa only seeds its generator if the seed is given as a keyword argument
 
         seq_id = args['seq_id']
         if seq_id == -1:
-- 
2.43.0


From 97c04e6a6c8bc597e6413aa19ae66a7e3f2e2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 08/24] fix: do not restart the pool id sequence when run_model
 follows single steps

---
 logic/sim.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index c5abef3..2d97846 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -241,7 +241,6 @@ class Simulation(Model):
         :return:
         """
         self.start_time = time.time()
-        self.initialize_pool_id_seq()  # initialize pool id sequence for the new model run
         while self.schedule.steps <= self.max_iterations and self.running:
             self.step()
 
-- 
2.43.0


From df5c08b862b4d8d6d2b48b8d7e0ab601bb8359ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 09/24] fix: define the constant that the interactive
 visualisation imports

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 878818c..dc4c122 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -19,7 +19,7 @@ from logic.reward_schemes import TOTAL_EPOCH_REWARDS_R
 
 sns.set_theme()
 
-# MAX_NUM_POOLS = 1000 # potentially needed for run_viz
+MAX_NUM_POOLS = 1000  # needed for runViz
 MIN_STAKE_UNIT = 2.2e-17
 
 
-- 
2.43.0


From 548a78a0e4789967330cc42ad27e96d157d1c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 10/24] fix: report the final state of runs that stop at
 max_iterations in the aggregate results

---
 custom_batchrunner.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 4bb3f75..4d78617 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -181,9 +181,12 @@ def _model_run_func(
 
     data = []
 
-    steps = list(range(0, model.schedule.steps, data_collection_period))
-    if not steps or steps[-1] != model.schedule.steps - 1:
-        steps.append(model.schedule.steps - 1)
+    # the last round that data was collected for (data is collected at the beginning of each round, so a run that hits
+    # the maximum number of iterations has one more data point than it has completed rounds)
+    last_step = max(map(len, model.datacollector.model_vars.values()), default=model.schedule.steps) - 1
+    steps = list(range(0, last_step + 1, data_collection_period))
+    if not steps or steps[-1] != last_step:
+        steps.append(last_step)
 
     for step in steps:
         model_data, all_agents_data = _collect_data(model, step)
@@ -198,7 +201,7 @@ def _model_run_func(
         else:
             stepdata = [{**{"Step": step}, **kwargs, **model_data}]
 
-            if step == model.schedule.steps - 1:
+            if step == last_step:
                 # write end-of-run results to file
                 header = [key for key in stepdata[0].keys() if key not in fixed_params]
                 row = [value for key, value in stepdata[0].items() if key not in fixed_params]
-- 
2.43.0


From a2f6f725b9f3552a8483e546d7b0eec1d18f267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 11/24] fix: write the aggregate results of a batch run from
 one process, so that its header is not repeated

---
 custom_batchrunner.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 4d78617..e3f876c 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -78,9 +78,7 @@ def custom_batch_run(
         _model_run_func,
         model_cls,
         max_steps=max_steps,
-        data_collection_period=data_collection_period,
-        batch_run_id=batch_run_id,
-        fixed_params=fixed_params
+        data_collection_period=data_collection_period
     )
 
     total_iterations = len(final_kwargs_list)
@@ -88,6 +86,8 @@ def custom_batch_run(
 
     results: List[Dict[str, Any]] = []
 
+    aggregate_results_filepath = path / ('aggregate-results-' + batch_run_id + '.csv')
+
     with tqdm(total_iterations, disable=not display_progress) as pbar:
         iteration_counter: Counter[Tuple[Any, ...]] = Counter()
 
@@ -101,6 +101,9 @@ def custom_batch_run(
                 out.update(run_data)
                 data.append(out)
             results.extend(data)
+            # write end-of-run results to file (only done by the parent process, so that there are no concurrent writes)
+            end_of_run = {key: value for key, value in rawdata[-1].items() if key not in fixed_params}
+            hlp.write_to_csv(aggregate_results_filepath, list(end_of_run.keys()), list(end_of_run.values()))
             pbar.update()
 
         if number_processes == 1:
@@ -153,9 +156,7 @@ def _model_run_func(
     model_cls: Type[Model],
     kwargs: Dict[str, Any],
     max_steps: int,
-    data_collection_period: int,
-    batch_run_id: str,
-    fixed_params: List[str]
+    data_collection_period: int
 ) -> Tuple[Tuple[Any, ...], List[Dict[str, Any]]]:
     """Run a single model run and collect model and agent data.
 
@@ -200,15 +201,6 @@ def _model_run_func(
         # If there is only model data, then create a single entry for the step
         else:
             stepdata = [{**{"Step": step}, **kwargs, **model_data}]
-
-            if step == last_step:
-                # write end-of-run results to file
-                header = [key for key in stepdata[0].keys() if key not in fixed_params]
-                row = [value for key, value in stepdata[0].items() if key not in fixed_params]
-                filename = 'aggregate-results-' + batch_run_id + '.csv'
-                path = pathlib.Path.cwd() / "output" / batch_run_id
-                filepath = path / filename
-                hlp.write_to_csv(filepath, header, row)
         data.extend(stepdata)
 
     return tuple(kwargs.values()), data
-- 
2.43.0


From 1b456e47c31b44be6cd05937a7ae58ba0d4e25c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 12/24] fix: update the serial number file atomically

---
 logic/helper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index dc4c122..8d460c6 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -3,6 +3,7 @@ from numpy.random import default_rng
 import numpy as np
 from scipy import stats
 import csv
+import os
 import pathlib
 from math import floor, log10, fsum
 from functools import lru_cache
@@ -350,8 +351,11 @@ def read_seq_id(filename='sequence.dat'):
 
 
 def write_seq_id(seq, filename='sequence.dat'):
-    with open(filename, 'w') as f:
+    # replace the file in one go, so that an interruption cannot leave an empty file behind
+    temp_filename = filename + '.tmp'
+    with open(temp_filename, 'w') as f:
         f.write(str(seq))
+    os.replace(temp_filename, filename)
 
 
 def write_to_csv(filepath, header, row):
-- 
2.43.0


From d4c71f3cd31ef367c6cd46624cb14d3b620cc64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 13/24] fix: read every value of a comma-separated stake
 distribution file

---
 logic/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index 8d460c6..1d781ba 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -32,13 +32,13 @@ def read_stake_distr_from_file(num_agents=10000, seed=42):
         with open(filename) as file:
             reader = csv.reader(file)
             for row in reader:
-                stk_dstr.append(float(row[0]))
+                stk_dstr.extend(float(value) for value in row if value)
     except FileNotFoundError:
         try:
             with open(default_filename) as file:
                 reader = csv.reader(file)
                 for row in reader:
-                    stk_dstr.append(float(row[0]))
+                    stk_dstr.extend(float(value) for value in row if value)
         except FileNotFoundError:
             print("Couldn't find file to read stake distribution from. Please make sure that the file exists or "
                   "use another option for the stake distribution source.")
-- 
2.43.0


From fa69957db016b457effad5d90cb7fdb1107b85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 14/24] fix: skip the padding of the rankings when computing
 the stake that a pool can expect

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 1d781ba..ce4107e 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -206,7 +206,7 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     """
     rank = pool_rankings.index(pool)
     better_pools_stake_at_saturation = fsum(
-        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank]])
+        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
     rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
     return calculate_non_myopic_pool_stake_from_rank(
-- 
2.43.0


From db5f82291a70c61a9d3c143429c9ba73d579a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 15/24] fix: recognise that k better pools cover the total
 stake despite rounding errors (e.g. k = 49)

---
 logic/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index ce4107e..e998d54 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -208,7 +208,8 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     better_pools_stake_at_saturation = fsum(
         [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
-    rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
+    # (rounding to 12 decimal digits to avoid floating point errors, as k saturation thresholds don't always sum to exactly 1)
+    rank_in_top_pools = round(better_pools_stake_at_saturation, 12) < total_stake
     return calculate_non_myopic_pool_stake_from_rank(
         pool_pledge=pool.pledge,
         pool_stake=pool.stake,
-- 
2.43.0


From bcbd6e747eda3eeb9ea6abc16a486748f003c7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 16/24] fix: end runs properly when a later phase has a
 max_iterations that has already passed

---
 logic/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index 2d97846..321bb8a 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -241,7 +241,7 @@ class Simulation(Model):
         :return:
         """
         self.start_time = time.time()
-        while self.schedule.steps <= self.max_iterations and self.running:
+        while self.running:  # until step finds that the system has converged or that max_iterations is reached
             self.step()
 
     def has_converged(self):
-- 
2.43.0


From 4d8200872059b72663dc4b48420128da812cfce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 17/24] fix: make the pickled simulation object loadable when
 there are pools

---
 logic/sim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index 321bb8a..945701c 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -4,6 +4,7 @@ import pathlib
 import math
 import random
 import pickle as pkl
+from functools import partial
 import numpy as np
 from sortedcontainers import SortedList
 from mesa import Model
@@ -112,7 +113,7 @@ class Simulation(Model):
         self.pool_rankings = SortedList([None] * (self.reward_scheme.k + 1),
                                         key=hlp.pool_comparison_key)  # all pools ranked from best to worst non-myopically
         self.pool_rankings_myopic = SortedList([None] * (self.reward_scheme.k + 1),
-                                               key=self.pool_comparison_key_myopic)  # all pools ranked from best to worst myopically
+                                               key=partial(self.pool_comparison_key_myopic, self.reward_scheme))  # all pools ranked from best to worst myopically
 
         total_stake = self.initialize_agents(
             args['agent_profile_distr'], args['cost_min'], args['cost_max'], args['pareto_param'],
@@ -449,13 +450,14 @@ class Simulation(Model):
         if self.generate_graphs:
             self.export_graphs()
 
-    def pool_comparison_key_myopic(self, pool):
+    @staticmethod
+    def pool_comparison_key_myopic(reward_scheme, pool):  # doesn't use self, so that rankings can be unpickled on their own
         if pool is None:
             return 0, 0, 0
         # sort pools based on their myopic desirability
         # break ties with pool id
         current_profit = hlp.calculate_current_profit(
-            pool.stake, pool.pledge, pool.cost, self.reward_scheme
+            pool.stake, pool.pledge, pool.cost, reward_scheme
         )
         myopic_desirability = hlp.calculate_myopic_pool_desirability(pool.margin, current_profit)
         return -myopic_desirability, pool.id
-- 
2.43.0


From dc56852d82d9414923fe06cb0b409650b5425955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 18/24] fix: let batch runs use the reward scheme of CIP-50

---
 batch-run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch-run.py b/batch-run.py
index 7420c83..ca3952e 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -44,7 +44,7 @@ if __name__ == "__main__":
                              'the original cost value of the stakeholder. Default is 40%%.')
     parser.add_argument('--stake_distr_source', nargs="?", type=str, default='Pareto',
                         help='The distribution type to use for the initial allocation of stake to the agents.')
-    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(4),
+    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(5),
                         help='The reward scheme to use in the simulation. 0 for the original reward scheme of Cardano, '
                              '1 for a simplified version of it, 2 for a reward scheme with flat pledge benefit, 3 for '
                              'a reward scheme with curved pledge benefit (CIP-7) and 4 for the reward scheme of CIP-50.')
-- 
2.43.0


From 4cb750ecb10ee3a883a05ca5c38a8ebdf2fc06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 19/24] fix: give executions that start at the same time
 different serial numbers

---
 .gitignore            |  1 +
 custom_batchrunner.py |  3 +--
 logic/helper.py       | 21 +++++++++++++++++++++
 logic/sim.py          |  3 +--
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/.gitignore b/.gitignore
index e2a7f5e..2bde133 100644
--- a/.gitignore
+++ b/.gitignore
@@ -2,6 +2,7 @@
 **.py~
 **.csv
 **.dat
+**.dat.lock
 **.spec
 **.pkl
 **/dist
diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index e3f876c..512afd6 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -57,8 +57,7 @@ def custom_batch_run(
         [description]
     """
 
-    seq_id = hlp.read_seq_id() + 1
-    hlp.write_seq_id(seq_id)
+    seq_id = hlp.get_next_seq_id()
     batch_run_id = str(seq_id) + '-' + batch_run_id
     path = pathlib.Path.cwd() / "output" / batch_run_id
     pathlib.Path(path).mkdir(parents=True)
diff --git a/logic/helper.py b/logic/helper.py
index e998d54..0798bb3 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -12,6 +12,10 @@ import matplotlib.pyplot as plt
 from matplotlib import ticker
 import seaborn as sns
 import argparse
+try:
+    import fcntl
+except ImportError:  # not available on all operating systems
+    fcntl = None
 
 from logic.stakeholder_profiles import PROFILE_MAPPING
 from logic.reward_schemes import RSS_MAPPING
@@ -359,6 +363,23 @@ def write_seq_id(seq, filename='sequence.dat'):
     os.replace(temp_filename, filename)
 
 
+def lock_file(file):
+    """
+    Wait for exclusive access to an open file, which lasts until the file is closed or the process ends
+    """
+    if fcntl is not None:
+        fcntl.flock(file, fcntl.LOCK_EX)
+
+
+def get_next_seq_id(filename='sequence.dat'):
+    # executions that start at the same time take turns, so that no two of them get the same number
+    with open(filename + '.lock', 'w') as lock:
+        lock_file(lock)
+        seq = read_seq_id(filename) + 1
+        write_seq_id(seq, filename)
+    return seq
+
+
 def write_to_csv(filepath, header, row):
     with open(filepath, 'a', newline='') as f:
         writer = csv.writer(f)
diff --git a/logic/sim.py b/logic/sim.py
index 945701c..5545a62 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -49,8 +49,7 @@ class Simulation(Model):
 
         seq_id = args['seq_id']
         if seq_id == -1:
-            seq_id = hlp.read_seq_id() + 1
-            hlp.write_seq_id(seq_id)
+            seq_id = hlp.get_next_seq_id()
         self.seq_id = seq_id
 
         execution_id = args['execution_id']
-- 
2.43.0


From 69294e762ee4649229d133a0a398b08f314ca5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 20/24] fix: write the header of the experiment tracker once
 even if executions end at the same time

---
 logic/helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/helper.py b/logic/helper.py
index 0798bb3..ff805c5 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -382,6 +382,8 @@ def get_next_seq_id(filename='sequence.dat'):
 
 def write_to_csv(filepath, header, row):
     with open(filepath, 'a', newline='') as f:
+        lock_file(f)  # in case other executions write to the same file
+        f.seek(0, os.SEEK_END)
         writer = csv.writer(f)
         if f.tell() == 0:
             writer.writerow(header)
-- 
2.43.0


From d3f2579caf2b3d730c4eea89e4313e0db68ca1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 21/24] fix: reject numbers of iterations after convergence
 that are not natural numbers

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index ff805c5..2c69189 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -609,7 +609,7 @@ def add_script_arguments(parser):
     parser.add_argument('--inactive_stake_fraction_known', type=bool, default=False,
                         action=argparse.BooleanOptionalAction,
                         help='Is the inactive stake fraction of the system known beforehand? Default is no.')
-    parser.add_argument('--iterations_after_convergence', nargs="?", type=int, default=10,  # todo maybe make constant
+    parser.add_argument('--iterations_after_convergence', nargs="?", type=positive_int, default=10,  # todo maybe make constant
                         help='The minimum consecutive idle iterations that are required before terminations. '
                              'Default is 10.')
     parser.add_argument('--max_iterations', nargs="?", type=positive_int, default=2000,
-- 
2.43.0


From 3238cebb6b543d164e2f412a9ee2f91344eb4e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 22/24] fix: reject values that are not real numbers (nan, inf)
 on the command line

---
 logic/helper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index 2c69189..b73930b 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -5,7 +5,7 @@ from scipy import stats
 import csv
 import os
 import pathlib
-from math import floor, log10, fsum
+from math import floor, log10, fsum, isfinite
 from functools import lru_cache
 import json
 import matplotlib.pyplot as plt
@@ -538,21 +538,21 @@ def non_negative_int(value):
 
 def positive_float(value):
     float_value = float(value)
-    if float_value <= 0:
+    if not isfinite(float_value) or float_value <= 0:
         raise argparse.ArgumentTypeError("invalid positive float value: {}".format(value))
     return float_value
 
 
 def non_negative_float(value):
     float_value = float(value)
-    if float_value < 0:
+    if not isfinite(float_value) or float_value < 0:
         raise argparse.ArgumentTypeError("invalid non-negative float value: {}".format(value))
     return float_value
 
 
 def fraction(value):
     float_value = float(value)
-    if float_value < 0 or float_value > 1:
+    if not 0 <= float_value <= 1:
         raise argparse.ArgumentTypeError("invalid fraction value: {}".format(value))
     return float_value
 
-- 
2.43.0


From 33e34e9a23e288f759d41cf5811bc09530426038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 23/24] fix: reject a cost_max below cost_min before anything
 is written

---
 main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main.py b/main.py
index a620e77..9476957 100644
--- a/main.py
+++ b/main.py
@@ -10,6 +10,8 @@ def main():
     parser = argparse.ArgumentParser(description='Pooling Games')
     hlp.add_script_arguments(parser)
     args = parser.parse_args()
+    if not args.input_from_file and args.cost_max < args.cost_min:
+        parser.error("invalid cost_max ( < cost_min)")
 
     sim = simulation.Simulation(
         n=args.n,
-- 
2.43.0


From 7e24dc8e436a23b02b663cdcf1bb98814ba1c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 24/24] fix: record the metrics that the charts of the
 visualisation show

---
 interactiveViz/runViz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interactiveViz/runViz.py b/interactiveViz/runViz.py
index 56d6056..3f2e17c 100644
--- a/interactiveViz/runViz.py
+++ b/interactiveViz/runViz.py
@@ -53,7 +53,9 @@ model_params = {
     ),
     "extra_pool_cost_fraction": UserSettableParameter(
         "slider", "Cost factor", 0.4, 0.0, 1, 0.01
-    )
+    ),
+    # ids of the metrics that the charts above show
+    "metrics": [1, 21, 27]
 }
 
 # todo add option for different distributions
-- 
2.43.0

