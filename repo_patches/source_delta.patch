From f1ee956dd3893e48e2ec59e1e63fd7b83172dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 01/66] fix: order QR-DQN's evaluation optimizers like the
 losses they receive

---
 reagent/training/qrdqn_trainer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reagent/training/qrdqn_trainer.py b/reagent/training/qrdqn_trainer.py
index 99b38d3..caf5b7b 100644
--- a/reagent/training/qrdqn_trainer.py
+++ b/reagent/training/qrdqn_trainer.py
@@ -98,13 +98,13 @@ class QRDQNTrainer(DQNTrainerBaseLightning):
             source_params += list(self.q_network_cpe.parameters())
             # source_params += list(self.reward_network.parameters())
             optimizers.append(
-                self.q_network_cpe_optimizer.make_optimizer(
-                    self.q_network_cpe.parameters()
+                self.reward_network_optimizer.make_optimizer(
+                    self.reward_network.parameters()
                 )
             )
             optimizers.append(
-                self.reward_network_optimizer.make_optimizer(
-                    self.reward_network.parameters()
+                self.q_network_cpe_optimizer.make_optimizer(
+                    self.q_network_cpe.parameters()
                 )
             )
 
-- 
2.43.0


From 7a7840af620484472f8465f97907240d6dcc30d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 02/66] fix: keep CRR's losses aligned with their optimizers
 between delayed updates

---
 reagent/training/discrete_crr_trainer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reagent/training/discrete_crr_trainer.py b/reagent/training/discrete_crr_trainer.py
index 26a4dab..7e2d1f9 100644
--- a/reagent/training/discrete_crr_trainer.py
+++ b/reagent/training/discrete_crr_trainer.py
@@ -280,8 +280,7 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
                 )
             yield actor_loss
         else:
-            # Yielding None prevents the actor and target networks from updating
-            yield None
+            # Yielding None prevents the actor network from updating
             yield None
 
         discount_tensor = torch.full_like(rewards, self.gamma)
@@ -317,5 +316,8 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
         # Use the soft update rule to update the target networks.
         # Note: this yield has to be the last one, since SoftUpdate is the last
         # optimizer added in the configure_optimizers() function.
-        result = self.soft_update_result()
-        yield result
+        # Yielding None prevents the target networks from updating
+        if batch_idx % self.delayed_policy_update == 0:
+            yield self.soft_update_result()
+        else:
+            yield None
-- 
2.43.0


From 272d4ecf5ea33b2a99c7cdf910906858015482ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 03/66] fix: greedy sampler gives its own choice
 log-probability 0, not the others

---
 reagent/gym/policies/samplers/discrete_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index ac895ec..667eb8a 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -85,7 +85,7 @@ class GreedyActionSampler(Sampler):
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
         return rlt.ActorOutput(
-            action=action, log_prob=torch.ones_like(raw_action, dtype=torch.float)
+            action=action, log_prob=torch.zeros_like(raw_action, dtype=torch.float)
         )
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
@@ -96,7 +96,7 @@ class GreedyActionSampler(Sampler):
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
         match = greedy_indices == action.argmax(-1)
         lp = torch.zeros(scores.shape[0]).float()
-        lp[match] = -float("inf")
+        lp[~match] = -float("inf")
         return lp
 
 
-- 
2.43.0


From 3fc444b5e1fa6cc6515dc9e0133a2be65017d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 04/66] fix: epsilon-greedy sampler can sample, and reports
 log-probabilities over actions

---
 reagent/gym/policies/samplers/discrete_sampler.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index 667eb8a..9c7c500 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -131,7 +131,7 @@ class EpsilonGreedyActionSampler(Sampler):
         argmax = F.one_hot(scores.argmax(dim=1), num_actions).bool()
 
         rand_prob = self.epsilon / num_actions
-        p = torch.full_like(rand_prob, scores)
+        p = torch.full_like(scores, rand_prob)
 
         greedy_prob = 1 - self.epsilon + rand_prob
         p[argmax] = greedy_prob
@@ -145,13 +145,12 @@ class EpsilonGreedyActionSampler(Sampler):
         return rlt.ActorOutput(action=action, log_prob=log_prob)
 
     def log_prob(self, scores: torch.Tensor, action: torch.Tensor) -> torch.Tensor:
-        max_index = self.sample_action(scores).argmax(-1)
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        opt = max_index == action.argmax(-1)
-        n = len(scores)
-        lp = torch.ones(n) * self.epsilon / n
-        lp[opt] = 1 - self.epsilon + self.epsilon / n
-        return lp
+        opt = scores.argmax(dim=1) == action.argmax(-1)
+        batch_size, num_actions = scores.shape
+        p = torch.ones(batch_size) * self.epsilon / num_actions
+        p[opt] = 1 - self.epsilon + self.epsilon / num_actions
+        return p.log()
 
     def update(self) -> None:
         self.epsilon *= self.epsilon_decay
-- 
2.43.0


From d51f95352deebfc8a5b93c717b388b73731efdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 05/66] fix: Gaussian sampler calls the methods the actor has
 and scores the given action

---
 reagent/gym/policies/samplers/continuous_sampler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reagent/gym/policies/samplers/continuous_sampler.py b/reagent/gym/policies/samplers/continuous_sampler.py
index 0775e39..9ce952f 100644
--- a/reagent/gym/policies/samplers/continuous_sampler.py
+++ b/reagent/gym/policies/samplers/continuous_sampler.py
@@ -15,7 +15,7 @@ class GaussianSampler(Sampler):
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         action = torch.tanh(loc + r * scale_log.exp())
         # Since each dim are independent, log-prob is simply sum
-        log_prob = self.actor_network._log_prob(r, scale_log)
+        log_prob = self.actor_network._normal_log_prob(r, scale_log)
         squash_correction = self.actor_network._squash_correction(action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
         return action, log_prob
@@ -36,7 +36,7 @@ class GaussianSampler(Sampler):
         # This is not getting exported; we can use it
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         n = torch.distributions.Normal(loc, scale_log.exp())
-        raw_action = self.actor_network._atanh(squashed_action)
+        raw_action = torch.atanh(squashed_action)
         log_prob = n.log_prob(raw_action)
         squash_correction = self.actor_network._squash_correction(squashed_action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
@@ -49,7 +49,6 @@ class GaussianSampler(Sampler):
         self, scores: GaussianSamplerScore, squashed_action: torch.Tensor
     ) -> torch.Tensor:
         self.actor_network.eval()
-        # pyre-fixme[20]: Argument `squashed_action` expected.
-        log_prob = self._log_prob(scores.loc, scores.scale_log)
+        log_prob = self._log_prob(scores.loc, scores.scale_log, squashed_action)
         self.actor_network.train()
         return log_prob
-- 
2.43.0


From 1e394c0a1f03026737b677e0f6d50ecf04e42d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 06/66] fix: Frechet sort truncates the ranking to topk, not
 the batch

---
 reagent/samplers/frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/samplers/frechet.py b/reagent/samplers/frechet.py
index 4f0a902..ecc8dd0 100644
--- a/reagent/samplers/frechet.py
+++ b/reagent/samplers/frechet.py
@@ -73,7 +73,7 @@ class FrechetSort(Sampler):
         log_prob = self.log_prob(scores, action)
         # Only truncate the action before returning
         if self.topk is not None:
-            action = action[: self.topk]
+            action = action[:, : self.topk]
         return rlt.ActorOutput(action, log_prob)
 
     def log_prob(self, scores: torch.Tensor, action) -> torch.Tensor:
-- 
2.43.0


From a8c31adfa897558878ecb394d5ba9bf1e4493e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 07/66] fix: SlateQ trainer resolves its default parameters

---
 reagent/training/slate_q_trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reagent/training/slate_q_trainer.py b/reagent/training/slate_q_trainer.py
index 815278f..1bbe941 100644
--- a/reagent/training/slate_q_trainer.py
+++ b/reagent/training/slate_q_trainer.py
@@ -8,6 +8,7 @@ import reagent.parameters as rlp
 import reagent.types as rlt
 import torch
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.optimizer import Optimizer__Union, SoftUpdate
 from reagent.training.reagent_lightning_module import ReAgentLightningModule
@@ -17,6 +18,7 @@ logger = logging.getLogger(__name__)
 
 
 class SlateQTrainer(RLTrainerMixin, ReAgentLightningModule):
+    @resolve_defaults
     def __init__(
         self,
         q_network,
-- 
2.43.0


From e96dc715b41bbcd81f81f3b4358cb1e1e0abb1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 08/66] fix: prioritized buffer raises instead of returning an
 invalid index when attempts run out

---
 reagent/replay_memory/prioritized_replay_buffer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 62c8a39..79f8edd 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -96,19 +96,19 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
         allowed_attempts = self._max_sample_attempts
         for i in range(len(indices)):
             if not self.is_valid_transition(indices[i]):
-                if allowed_attempts == 0:
-                    raise RuntimeError(
-                        "Max sample attempts: Tried {} times but only sampled {}"
-                        " valid indices. Batch size is {}".format(
-                            self._max_sample_attempts, i, batch_size
-                        )
-                    )
                 index = indices[i]
                 while not self.is_valid_transition(index) and allowed_attempts > 0:
                     # If index i is not valid keep sampling others. Note that this
                     # is not stratified.
                     index = self.sum_tree.sample()
                     allowed_attempts -= 1
+                if not self.is_valid_transition(index):
+                    raise RuntimeError(
+                        "Max sample attempts: Tried {} times but only sampled {}"
+                        " valid indices. Batch size is {}".format(
+                            self._max_sample_attempts, i, batch_size
+                        )
+                    )
                 indices[i] = index
         return torch.tensor(indices, dtype=torch.int64)
 
-- 
2.43.0


From fca7f908c50b02e9243cb7c6d6e8a63838797058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 09/66] fix: prioritized buffer samples its default batch size
 when none is given

---
 reagent/replay_memory/prioritized_replay_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 79f8edd..70ad47a 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -126,6 +126,8 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
           transition_batch: tuple of np.arrays with the shape and type as in
             get_transition_elements().
         """
+        if batch_size is None:
+            batch_size = self._batch_size
         transition = super(PrioritizedReplayBuffer, self).sample_transition_batch(
             batch_size, indices
         )
-- 
2.43.0


From f9d4e15b295bd8a6df28766b480ddd0f46bcf146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 10/66] fix: sum tree never samples a leaf of zero priority at
 the end of its range

---
 reagent/replay_memory/sum_tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/sum_tree.py b/reagent/replay_memory/sum_tree.py
index f50afd0..c4201eb 100644
--- a/reagent/replay_memory/sum_tree.py
+++ b/reagent/replay_memory/sum_tree.py
@@ -116,7 +116,10 @@ class SumTree(object):
 
             left_sum = nodes_at_this_depth[left_child]
             # Each subtree describes a range [0, a), where a is its value.
-            if query_value < left_sum:  # Recurse into left subtree.
+            # A query at the very end of the range must not run past the last
+            # positive leaf, so an empty right subtree is never entered.
+            right_sum = nodes_at_this_depth[left_child + 1]
+            if query_value < left_sum or right_sum <= 0.0:  # Recurse into left subtree.
                 node_index = left_child
             else:  # Recurse into right subtree.
                 node_index = left_child + 1
-- 
2.43.0


From f399323ed70c51a650f98f4cfa2d62730801035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:55 +0000
Subject: [PATCH 11/66] fix: a preprocessor can be built for CLIP_LOG features

---
 reagent/preprocessing/preprocessor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reagent/preprocessing/preprocessor.py b/reagent/preprocessing/preprocessor.py
index f8d3b4f..b1c23b3 100644
--- a/reagent/preprocessing/preprocessor.py
+++ b/reagent/preprocessing/preprocessor.py
@@ -214,6 +214,11 @@ class Preprocessor(Module):
         # ONNX doesn't support != yet
         return self.one_tensor - (input == self.zero_tensor).float()
 
+    def _create_parameters_CLIP_LOG(
+        self, begin_index: int, norm_params: List[NormalizationParameters]
+    ):
+        pass
+
     def _preprocess_CLIP_LOG(
         self,
         begin_index: int,
-- 
2.43.0


From 519e09683e647229666befb5f03eba57f2ddbff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 12/66] fix: skipping Box-Cox keeps the statistics of the
 untransformed values

---
 reagent/preprocessing/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/preprocessing/normalization.py b/reagent/preprocessing/normalization.py
index cb1c07c..9223e72 100644
--- a/reagent/preprocessing/normalization.py
+++ b/reagent/preprocessing/normalization.py
@@ -93,7 +93,7 @@ def identify_parameter(
                 k2_original, p_original, k2_boxcox, p_boxcox
             )
         )
-        if lambda_ < 0.9 or lambda_ > 1.1:
+        if not skip_box_cox and (lambda_ < 0.9 or lambda_ > 1.1):
             # Lambda is far enough from 1.0 to be worth doing boxcox
             if k2_original > k2_boxcox * 10 and k2_boxcox <= quantile_k2_threshold:
                 # The boxcox output is significantly more normally distributed
-- 
2.43.0


From 1abb6fc456266c900fb6ca260ed1e2cd6a832af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 13/66] fix: MAGIC's error matrix adds the outer product of the
 biases

---
 .../evaluation/weighted_sequential_doubly_robust_estimator.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index e16b9bc..e331bcf 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -221,7 +221,7 @@ class WeightedSequentialDoublyRobustEstimator:
         j_step_bias[where_higher] = j_step_returns[where_higher] - high_bound
 
         covariance = np.cov(j_step_return_trajectories)
-        error = covariance + j_step_bias.T * j_step_bias
+        error = covariance + np.outer(j_step_bias, j_step_bias)
 
         # minimize mse error
         constraint = {"type": "eq", "fun": lambda x: np.sum(x) - 1.0}
-- 
2.43.0


From aa763502e9bcbe942cd90200f12032a4420d6ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 14/66] fix: discount every logged metric, not only the first

---
 reagent/evaluation/evaluation_data_page.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 41d88a0..0531443 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -514,7 +514,7 @@ class EvaluationDataPage(NamedTuple):
             if mdp_ids[x] != mdp_ids[x + 1]:
                 # Value = reward for new mdp_id
                 continue
-            values[x, 0] += values[x + 1, 0] * math.pow(
+            values[x] += values[x + 1] * math.pow(
                 gamma, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0])
             )
 
-- 
2.43.0


From 1ed8528a3828609c43ed130d965564aa0aa47130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 15/66] fix: parametric evaluation pages group metric
 predictions by metric

---
 reagent/evaluation/evaluation_data_page.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 0531443..7ae454b 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -250,8 +250,14 @@ class EvaluationDataPage(NamedTuple):
         )
         model_rewards = model_rewards.reshape(possible_actions_mask.shape)
 
-        model_metrics = rewards_and_metric_rewards[:, 1:]
-        model_metrics = model_metrics.reshape(possible_actions_mask.shape[0], -1)
+        # reorder to one block of actions for each metric
+        model_metrics = torch.cat(
+            [
+                rewards_and_metric_rewards[:, i].reshape(possible_actions_mask.shape)
+                for i in range(rewards_and_metric_rewards.shape[1])
+            ],
+            dim=1,
+        )[:, max_num_actions:]
 
         model_values_for_logged_action = trainer.q_network(states, actions)
         model_rewards_and_metrics_for_logged_action = trainer.reward_network(
-- 
2.43.0


From b2596ff8d17cfd90a220875bca8a3846f3757b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 16/66] fix: a metric is scored with its own prediction for the
 logged action

---
 reagent/evaluation/evaluation_data_page.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 7ae454b..4aa3564 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -604,12 +604,14 @@ class EvaluationDataPage(NamedTuple):
         assert self.model_metrics is not None, "metrics must not be none"
         assert self.model_metrics_values is not None, "metrics must not be none"
 
+        model_rewards = self.model_metrics[:, i * num_actions : (i + 1) * num_actions]
         return self._replace(
             logged_rewards=self.logged_metrics[:, i : i + 1],
             logged_values=self.logged_metrics_values[:, i : i + 1],
-            model_rewards=self.model_metrics[
-                :, i * num_actions : (i + 1) * num_actions
-            ],
+            model_rewards=model_rewards,
+            model_rewards_for_logged_action=torch.sum(
+                model_rewards * self.action_mask, dim=1, keepdim=True
+            ),
             model_values=self.model_metrics_values[
                 :, i * num_actions : (i + 1) * num_actions
             ],
-- 
2.43.0


From 3a28239186738266ce2c95c668b24932b70bd5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 17/66] fix: keep the last step of the longest episodes in the
 sequential OPE adapter

edp_to_rl_input listed steps 0..horizon-2 only, so every episode as long as the
longest one lost its final action and reward (and one-step episodes everything).
---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 0397fea..5fba9f1 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -184,7 +184,7 @@ class SequentialOPEstimatorAdapter:
                         state=State((traj, i + 1)),
                         reward=rewards[traj, i].item(),
                     )
-                    for i in range(horizon - 1)
+                    for i in range(horizon)
                     if actions[traj, i][torch.argmax(actions[traj, i]).item()] != 0.0
                 ]
             )
-- 
2.43.0


From fe8a5f4f58fff82cedabcc87dd2438c3eaf988d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 18/66] fix: drop cached order and probabilities when values
 are replaced

Values.replace deep-copies the object with its caches, so after a sort(),
probability() or slot_item_expectations() call the new object kept answering
from the old values.
---
 reagent/ope/estimators/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index dbd7b85..7efc675 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -315,6 +315,7 @@ class Values(Objects[KeyType, float]):
                     copy._values[copy._key_to_index[k]] = v
         else:
             raise TypeError(f"Unsupported values type {type(values)}")
+        copy._reset()
         return copy
 
     def _normalize(self):
-- 
2.43.0


From a4cd88a3845daf03f32c53d520968e8938fc3c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 19/66] fix: self-normalise the weighted contextual-bandit IPS
 estimate

The weighted estimate divided the mean weighted reward (not its total) by the
total weight, so it shrank with the number of samples.
---
 reagent/ope/estimators/contextual_bandits_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 70a6441..d6cc99a 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -351,7 +351,7 @@ class IPSEstimator(Estimator):
             log_reward=log_avg.average,
             estimated_reward=tgt_avg.average
             if not self._weighted
-            else tgt_avg.average / acc_weight.total,
+            else tgt_avg.total / acc_weight.total,
             ground_truth_reward=gt_avg.average,
             estimated_weight=tgt_avg.count,
             estimated_reward_normalized=tgt_score_normalized,
-- 
2.43.0


From a78f6982f7ccef9bf62f59a328ce358785ed50f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 20/66] fix: give the epsilon-greedy RL policy its action space

The wrapped policy's device was passed as the action space, so action_space was
None and an epsilon-greedy policy could not itself be wrapped.
---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 8846090..d24d470 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -123,7 +123,7 @@ class EpsilonGreedyRLPolicy(RLPolicy):
 
     def __init__(self, policy: RLPolicy, epsilon: float = 0.0):
         assert policy is not None and 0.0 <= epsilon < 1.0
-        super().__init__(policy._device)
+        super().__init__(policy.action_space, policy._device)
         self._policy = policy
         self._exploitation_prob = 1.0 - epsilon
         self._exploration_prob = epsilon / len(policy.action_space)
-- 
2.43.0


From febdc3f8d3a56d3dd4f92a1e108f8555bc44023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 21/66] fix: value loss of DualDICE in stochastic environments

_compute_loss was called with the unpacked keys of the sample, which fails for
every NeuralDualDICE with deterministic_env=False.
---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index d24d470..56acc64 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -748,7 +748,7 @@ class NeuralDualDICE(RLEstimator):
             if self.deterministic_env:
                 v_loss = self._compute_loss(input.gamma, sample, True)
             else:
-                v_loss = self._compute_loss(*sample)
+                v_loss = self._compute_loss(input.gamma, sample, False)
             # Populate value gradients and optimize
             v_optim.zero_grad()
             v_loss.backward()
-- 
2.43.0


From d2480f017f0ab0c3327dccfee47dcf4536960a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 22/66] fix: contextual-bandit estimators without a trained
 reward model

torch.zeros() without a size raises, so the doubly robust and switch estimators
failed when neither model outputs nor a trained model were available.
---
 reagent/ope/estimators/contextual_bandits_estimators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index d6cc99a..e5d0d59 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -172,7 +172,11 @@ class DMEstimator(Estimator):
             )
         trainer = self._trainer
         if trainer is None or not trainer.is_trained:
-            return 0.0, torch.zeros(), torch.zeros()
+            return (
+                0.0,
+                torch.zeros(len(action_space), device=self._device),
+                torch.zeros(len(action_space), device=self._device),
+            )
         assert sample.item_feature is not None
         item_feature = sample.item_feature.flatten()
         features = []
-- 
2.43.0


From ce95b458ca2b169322f686e2432a570a6860426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 23/66] fix: switch doubly robust estimate between its extremes

The model's value of actions above the threshold was added on top of a doubly
robust term that already contained it, and the value of the other actions was
lost when the logged weight exceeded the threshold. The estimator is the direct
estimate plus the importance-weighted residual where the weight is small enough.
---
 reagent/ope/estimators/contextual_bandits_estimators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index e5d0d59..2b7d0e2 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -655,12 +655,10 @@ class SwitchDREstimator(SwitchEstimator):
         tgt_props: torch.Tensor,
     ) -> torch.Tensor:
         ips_scores = (weights * actions).sum(dim=1, keepdim=True)
-        dr = ips_scores * (logged_rewards - est_rewards_for_logged_action) + (
+        correction = ips_scores * (logged_rewards - est_rewards_for_logged_action)
+        return correction * (ips_scores <= threshold).float() + (
             tgt_props * est_rewards
         ).sum(dim=1, keepdim=True)
-        return dr * (ips_scores <= threshold).float() + (
-            est_rewards * tgt_props * (weights > threshold).float()
-        ).sum(dim=1, keepdim=True)
 
     def __repr__(self):
         return (
-- 
2.43.0


From 3ab439edf673d1e9acc7215acb40c48860e5dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 24/66] fix: discount the value after the last step of a MAGIC
 partial return

The value of the state reached after step j is discounted by gamma^(j+1), not
gamma^j: it follows one step after the last weighted reward.
---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 56acc64..f885ac2 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -440,7 +440,7 @@ class MAGICEstimator(IPSEstimator):
         wdr = wdrs[:, -1].sum(0)
         next_vs = torch.zeros((n, horizon), device=self._device)
         next_vs[:, :-1] = vs[:, 1:]
-        gs = wdrs + ws * next_vs * discount
+        gs = wdrs + ws * next_vs * discount * input.gamma
         gs_normal = gs.sub(torch.mean(gs, 0))
         assert n > 1
         omiga = (n / (n - 1.0)) * torch.einsum("ij,ik->jk", gs_normal, gs_normal)
-- 
2.43.0


From c4650afb9987bd1b7f5cc9310b8101eff327cdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 25/66] fix: let the MAGIC optimizer move the blending weights

The optimised tensor was replaced by its own softmax in the first iteration, so
later iterations and the estimate never saw the optimizer's steps and every
horizon got the same weight.
---
 reagent/ope/estimators/sequential_estimators.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index f885ac2..453872b 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -472,22 +472,21 @@ class MAGICEstimator(IPSEstimator):
         b.unsqueeze_(0)
         bb = b * b.t()
         cov = omiga + bb
-        # x = torch.rand((1, horizon), device=self.device, requires_grad=True)
-        x = torch.zeros((1, horizon), device=self._device, requires_grad=True)
+        logits = torch.zeros((1, horizon), device=self._device, requires_grad=True)
         # using SGD to find min x
-        optimizer = torch.optim.SGD([x], lr=lr)
+        optimizer = torch.optim.SGD([logits], lr=lr)
         last_y = 0.0
         for i in range(100):
-            x = torch.nn.functional.softmax(x, dim=1)
+            x = torch.nn.functional.softmax(logits, dim=1)
             y = torch.mm(torch.mm(x, cov), x.t())
             if abs(y.item() - last_y) < loss_threshold:
                 print(f"{i}: {last_y} -> {y.item()}")
                 break
             last_y = y.item()
             optimizer.zero_grad()
-            y.backward(retain_graph=True)
+            y.backward()
             optimizer.step()
-        x = torch.nn.functional.softmax(x, dim=1)
+        x = torch.nn.functional.softmax(logits, dim=1)
         estimate = torch.mm(x, gs.sum(0, keepdim=True).t()).cpu().item()
 
         results.append(
-- 
2.43.0


From 61adf40cb3fd0566cf8f216746a048856400ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 26/66] fix: look up values and features of slates with named
 slots

The slot-to-index map was unpacked as if it were the slot-to-item pairs, which
fails for every slate built from a mapping.
---
 reagent/ope/estimators/slate_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index cfe6caa..0c53cea 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -221,7 +221,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             # pyre-fixme[16]: `Slate` has no attribute `_values`.
             return SlateSlotValues([item_values[i] for i in self._values])
         else:
-            return SlateSlotValues({k: item_values[i] for k, i in self._key_to_index})
+            return SlateSlotValues({k: item_values[i] for k, i in self})
 
     def slot_features(self, item_features: SlateItemFeatures) -> SlateSlotFeatures:
         """
@@ -239,7 +239,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             )
         else:
             return SlateSlotFeatures(
-                {k: item_features[i].detach().clone() for k, i in self._key_to_index}
+                {k: item_features[i].detach().clone() for k, i in self}
             )
 
     def __repr__(self):
-- 
2.43.0


From b2d330ef4551966572c794e2765b2605ef7819b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 27/66] fix: list all slates of an item distribution

slate_space used the probabilities before they were normalised (None unless
something else had asked for them), and left out the slates that hold every
item of positive probability.
---
 reagent/ope/estimators/slate_estimators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 0c53cea..9d49871 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -516,6 +516,7 @@ class SlateItemProbabilities(SlateItemValues):
             items = super().greedy(slate_size)
             return [(items, 1.0)]
         else:
+            self._normalize()
             buffer = [([], 1.0, 0.0)]
             # pyre-fixme[16]: `SlateItemProbabilities` has no attribute
             #  `_probabilities`.
@@ -530,10 +531,9 @@ class SlateItemProbabilities(SlateItemValues):
                     for i, i_prob in enumerate(probs):
                         if i in b0:
                             continue
-                        nb2 = b2 + i_prob
-                        if nb2 < 1.0:
+                        if b2 < 1.0:
                             nb1 = b1 * i_prob / (1.0 - b2)
-                            next_buffer.append(([*b0, i], nb1, nb2))
+                            next_buffer.append(([*b0, i], nb1, b2 + i_prob))
                 if max_size <= 0 or max_size > len(next_buffer):
                     buffer = next_buffer
                 else:
-- 
2.43.0


From 5b8daba624024fea022442da911e99ccaf24bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 28/66] fix: probability of a greedy slate whose slots share
 their best item

Greedy sampling gives each slot the best item not used before; its own slate
got probability 0 when two slots preferred the same item.
---
 reagent/ope/estimators/slate_estimators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 9d49871..fd142bd 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -565,11 +565,12 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
         """
         assert len(slate) <= len(self)
         if self._greedy:
+            last_items = []
             for slot, item in slate:
-                probs = self[slot]
-                its, _ = probs.sort()
-                if its[0] != item:
+                its, _ = self[slot].sort()
+                if next(it for it in its if it not in last_items) != item:
                     return 0.0
+                last_items.append(item)
             return 1.0
         else:
             p = 1.0
-- 
2.43.0


From 232a082ae4ab9c1c84086df6726d1b651a819139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 29/66] fix: expected rewards of slates with one slot

squeeze() dropped the only slot's dimension, leaving values that cannot be
read.
---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index fd142bd..4dd6705 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -292,7 +292,7 @@ class SlateSlotItemExpectations(SlateSlotItemValues):
         """
         dist = self.values_tensor(device)
         rewards = item_rewards.values.to(device=device)
-        rewards = torch.mm(dist, rewards.unsqueeze(0).t()).squeeze()
+        rewards = torch.mm(dist, rewards.unsqueeze(0).t()).squeeze(1)
         if self.is_sequence:
             return SlateSlotValues(rewards)
         else:
-- 
2.43.0


From 30c5ecca5535c3e73ea77be3a2de809739afb722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 30/66] fix: expected reciprocal rank divides by two to the
 largest grade

The stopping probability is (2^g - 1) / 2^g_max; dividing by g_max^2 gives
probabilities above one for most scales.
---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 4dd6705..06b5f7d 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -890,7 +890,7 @@ class ERRSlateMetric(SlateMetric):
         return slots.fill([1.0 / (r + 1) for r in range(len(slots))])
 
     def slot_values(self, rewards: SlateSlotValues) -> SlateSlotValues:
-        d = torch.tensor(self._max_reward, device=self._device).pow(2.0)
+        d = 2.0 ** self._max_reward
         r = (torch.pow(2.0, rewards.values.clamp(0.0, self._max_reward)) - 1.0) / d
         p = 1.0
         err = torch.zeros(len(rewards), dtype=torch.double, device=self._device)
-- 
2.43.0


From 8da2b0acd36356370f789e90cc89c36169c5fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 31/66] fix: slate_space lists the named items instead of their
 positions

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 06b5f7d..13f693c 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -538,7 +538,7 @@ class SlateItemProbabilities(SlateItemValues):
                     buffer = next_buffer
                 else:
                     buffer = random.sample(next_buffer, max_size)
-            return [([SlateItem(i) for i in b[0]], b[1]) for b in buffer]
+            return [([self.keys[i] for i in b[0]], b[1]) for b in buffer]
 
 
 class SlateSlotItemProbabilities(SlateSlotItemValues):
-- 
2.43.0


From c071d69fccee71bc1792a8b83e21f80a3fa87328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 32/66] fix: logged samples with a given slate probability
 could not be validated

---
 reagent/ope/estimators/slate_estimators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 13f693c..0abdd8c 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -1043,7 +1043,11 @@ class LogSample:
             return self._log_slot_item_probabilities._values[0].items
         if self._log_item_probabilities is not None:
             return self._log_item_probabilities.items
-        return SlateItems(0)
+        if self._tgt_slot_item_probabilities is not None:
+            return self._tgt_slot_item_probabilities._values[0].items
+        if self._tgt_item_probabilities is not None:
+            return self._tgt_item_probabilities.items
+        return SlateItems([])
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 1fbba387d93292a6ca73ccbb64e6c56311a26dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 33/66] fix: tabular action values use the value of the next
 state

---
 reagent/ope/trainers/rl_tabular_trainers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index dbd6acc..d1fee8b 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -88,8 +88,10 @@ class TabularValueFunction(ValueFunction):
     def state_action_value(self, state: State, action: Action) -> float:
         value = 0.0
         sr_dist = self._model.next_state_reward_dist(state, action)
-        for _, rp in sr_dist.items():
-            value += rp.prob * (rp.reward + self._gamma * self.state_value(state))
+        for s, rp in sr_dist.items():
+            value += rp.prob * rp.reward
+            if s is not None and not s.is_terminal:
+                value += rp.prob * self._gamma * self.state_value(s)
         return value
 
     def state_value(self, state: State) -> float:
-- 
2.43.0


From c35fba63767c2fe138dc17a68905b63cf1278e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 34/66] fix: first-visit Monte Carlo skipped the first visits

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index d1fee8b..18ebf68 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -264,7 +264,7 @@ class MonteCarloValueFunction(TabularValueFunction):
                         continue
                     g = self._gamma * g + t.reward
                     counts = state_counts[t.last_state]
-                    if counts > 1:
+                    if counts == 1:
                         self._update_state_value(t.last_state, g)
                     counts -= 1
                     if counts == 0:
@@ -336,7 +336,7 @@ class MonteCarloTrainer(object):
                         g = gamma * g + t.reward
                         key = (t.last_state, t.action)
                         vc = vcounts[key]
-                        if vc > 1:
+                        if vc == 1:
                             self._update_state_value(
                                 value_counts, t.last_state, t.action, g
                             )
-- 
2.43.0


From b71cc84c14563506c76f40018b2bdb2c3d31893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 35/66] fix: a loaded tabular policy kept the exploration of
 the policy it replaced

---
 reagent/ope/trainers/rl_tabular_trainers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index 18ebf68..b3e4162 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -20,12 +20,15 @@ class TabularPolicy(RLPolicy):
     def __init__(self, action_space: ActionSpace, epsilon: float = 0.0, device=None):
         super().__init__(action_space, device)
         self._epsilon = epsilon
-        as_size = len(action_space)
-        self._exploitation_prob = 1.0 - epsilon
-        self._exploration_prob = epsilon / len(action_space)
-        self._uniform_probs: List[float] = as_size * [1.0 / as_size]
+        self._init_probs()
         self._state_space = {}
 
+    def _init_probs(self):
+        as_size = len(self._action_space)
+        self._exploitation_prob = 1.0 - self._epsilon
+        self._exploration_prob = self._epsilon / as_size
+        self._uniform_probs: List[float] = as_size * [1.0 / as_size]
+
     def update(self, state: State, actions: Sequence[float]) -> float:
         old_dist = self._uniform_probs
         if state in self._state_space:
@@ -65,6 +68,7 @@ class TabularPolicy(RLPolicy):
         try:
             with open(path, "rb") as f:
                 self._action_space, self._epsilon, self._state_space = pickle.load(f)
+            self._init_probs()
         except Exception:
             return False
         else:
-- 
2.43.0


From daea1513f481a7b7f8753fa83cc42212c8196cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:50 +0000
Subject: [PATCH 36/66] fix: direct slate values raised on the trainers'
 single-precision scores

---
 reagent/ope/estimators/slate_estimators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 0abdd8c..a2bff09 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -1141,7 +1141,8 @@ class DMEstimator(SlateEstimator):
             probs.append(prob)
         preds = self._trainer.predict(torch.stack(features), device=self._device)
         tgt_reward = torch.dot(
-            preds.scores, torch.tensor(probs, dtype=torch.double, device=self._device)
+            preds.scores.double(),
+            torch.tensor(probs, dtype=torch.double, device=self._device),
         )
         return EstimatorSampleResult(
             sample.log_reward,
@@ -1283,7 +1284,7 @@ class DoublyRobustEstimator(DMEstimator):
                 probs.append(prob)
             preds = self._trainer.predict(torch.stack(features), device=self._device)
             dm_reward = torch.dot(
-                preds.scores,
+                preds.scores.double(),
                 torch.tensor(probs, dtype=torch.double, device=self._device),
             ).item()
             assert sample.item_features is not None
-- 
2.43.0


From 23f98a68ef3147916e03e9616e59e4005de4eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 37/66] fix: keep batch and slate dimensions of seq2slate
 encoder scores

---
 reagent/models/seq2slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/seq2slate.py b/reagent/models/seq2slate.py
index 7aea7a5..462e076 100644
--- a/reagent/models/seq2slate.py
+++ b/reagent/models/seq2slate.py
@@ -709,7 +709,7 @@ class Seq2SlateTransformerModel(nn.Module):
         # slate_encoder_output shape: batch_size, tgt_seq_len, dim_model
         slate_encoder_output = gather(encoder_output, tgt_out_idx - 2)
         # encoder_scores shape: batch_size, tgt_seq_len
-        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze()
+        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze(dim=2)
         return Seq2SlateTransformerOutput(
             ranked_per_symbol_probs=None,
             ranked_per_seq_probs=None,
-- 
2.43.0


From d52085ed1fafb3308ed08aa0c12265f6aef76ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 38/66] fix: unreduced mixture loss of a single-example batch
 had the wrong shape

---
 reagent/models/mdn_rnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/mdn_rnn.py b/reagent/models/mdn_rnn.py
index 73057b3..caae4d9 100644
--- a/reagent/models/mdn_rnn.py
+++ b/reagent/models/mdn_rnn.py
@@ -225,7 +225,7 @@ def gmm_loss(batch, mus, sigmas, logpi, reduce=True):
     g_probs = torch.exp(g_log_probs)
     probs = torch.sum(g_probs, dim=-1)
 
-    log_prob = max_log_probs.squeeze() + torch.log(probs)
+    log_prob = max_log_probs.squeeze(-1) + torch.log(probs)
     if reduce:
         return -(torch.mean(log_prob))
     return -log_prob
-- 
2.43.0


From d0b896fec7cdbef76bfa2e80a15f642c510b1327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 39/66] fix: policy gradient batches of one-step episodes and
 one-dimensional actions lost a dimension

---
 reagent/gym/preprocessors/trainer_preprocessor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/preprocessors/trainer_preprocessor.py b/reagent/gym/preprocessors/trainer_preprocessor.py
index 247242d..ad39ca0 100644
--- a/reagent/gym/preprocessors/trainer_preprocessor.py
+++ b/reagent/gym/preprocessors/trainer_preprocessor.py
@@ -454,9 +454,10 @@ class PolicyGradientInputMaker:
         return _stack([_stack_slate(slate) for slate in observation])
 
     def __call__(self, trajectory: Trajectory):
-        action = torch.from_numpy(np.stack(trajectory.action).squeeze())
+        action = np.stack(trajectory.action).reshape(len(trajectory), -1)
+        action = torch.from_numpy(action)
         if self.num_actions is not None:
-            action = F.one_hot(action, self.num_actions).float()
+            action = F.one_hot(action.squeeze(1), self.num_actions).float()
             assert len(action.shape) == 2, f"{action.shape}"
             # one hot makes shape (batch_size, num_actions)
         state = (
-- 
2.43.0


From 2029fa9fc6803c435f03b392ba6d8df0199c5ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 40/66] fix: publishing a ranking actor needs its predictor
 wrapper imported

---
 reagent/net_builder/continuous_actor_net_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/net_builder/continuous_actor_net_builder.py b/reagent/net_builder/continuous_actor_net_builder.py
index 49c72b0..02b2dee 100644
--- a/reagent/net_builder/continuous_actor_net_builder.py
+++ b/reagent/net_builder/continuous_actor_net_builder.py
@@ -21,7 +21,10 @@ if IS_FB_ENVIRONMENT:
         FbRankingActorPredictorWrapper as RankingActorPredictorWrapper,
     )
 else:
-    from reagent.prediction.predictor_wrapper import ActorPredictorWrapper
+    from reagent.prediction.predictor_wrapper import (
+        ActorPredictorWrapper,
+        RankingActorPredictorWrapper,
+    )
 
 
 class ContinuousActorNetBuilder(metaclass=RegistryMeta):
-- 
2.43.0


From 19eca57a9357b6bad56f90bc500cd6cf8c8ad235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 41/66] fix: summary_writer failed with a single TensorBoard
 logger

---
 reagent/training/reagent_lightning_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index cf6b4df..caf76d0 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -86,8 +86,8 @@ class ReAgentLightningModule(pl.LightningModule):
                 if isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
                     self._summary_writer = logger.experiment
                     break
-        elif isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
-            self._summary_writer = logger.experiment
+        elif isinstance(self.logger, pl.loggers.tensorboard.TensorBoardLogger):
+            self._summary_writer = self.logger.experiment
 
         return self._summary_writer
 
-- 
2.43.0


From c4f29d0bf9fa18136695a70733e2a246122d0e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 42/66] fix: LossReporter passed the epoch as a second global
 step

---
 reagent/training/loss_reporter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/training/loss_reporter.py b/reagent/training/loss_reporter.py
index 458eb32..15306af 100644
--- a/reagent/training/loss_reporter.py
+++ b/reagent/training/loss_reporter.py
@@ -345,7 +345,9 @@ class LossReporter(object):
             ("Training/reward_loss", self.get_recent_reward_loss()),
             ("Training/imitator_loss", self.get_recent_imitator_loss()),
         ]:
-            SummaryWriterContext.add_scalar(name, none_to_zero(value), epoch)
+            SummaryWriterContext.add_scalar(
+                name, none_to_zero(value), global_step=epoch
+            )
 
     @staticmethod
     def calculate_recent_window_average(arr, window_size, num_entries):
-- 
2.43.0


From 31d9a11145f56634542c41375c12277440dea9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 43/66] fix: DQN with a batch-constraint filter and SARSA
 targets crashed when reporting

---
 reagent/training/dqn_trainer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reagent/training/dqn_trainer.py b/reagent/training/dqn_trainer.py
index 8af4eda..1ba7899 100644
--- a/reagent/training/dqn_trainer.py
+++ b/reagent/training/dqn_trainer.py
@@ -222,11 +222,11 @@ class DQNTrainer(DQNTrainerBaseLightning):
         if self.maxq_learning:
             possible_actions_mask = training_batch.possible_actions_mask
 
-        if self.bcq:
-            action_on_policy = get_valid_actions_from_imitator(
-                self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
-            )
-            possible_actions_mask *= action_on_policy
+            if self.bcq:
+                action_on_policy = get_valid_actions_from_imitator(
+                    self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
+                )
+                possible_actions_mask *= action_on_policy
 
         # Do we ever use model_action_idxs computed below?
         model_action_idxs = self.get_max_q_values(
-- 
2.43.0


From 3d8164ce4a6498e24118e5a2249c89b8a39b4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 44/66] fix: next candidates' mask was shaped like the current
 candidates'

---
 reagent/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/types.py b/reagent/types.py
index acfbec7..a052db0 100644
--- a/reagent/types.py
+++ b/reagent/types.py
@@ -690,6 +690,9 @@ class BaseInput(TensorDataClass):
         next_candidate_features = batch.get(InputColumn.NEXT_CANDIDATE_FEATURES, None)
         if next_candidate_features is not None:
             assert filler_mask_val is not None
+            filler_mask_val = torch.zeros(
+                (next_candidate_features.shape[0], next_candidate_features.shape[1])
+            )
             next_doc_list = DocList(
                 float_features=next_candidate_features,
                 mask=filler_mask_val.clone().bool(),
-- 
2.43.0


From 3dc6d9ed48691cae50b62c4f0fb7e01a46250403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 45/66] fix: features with scored lists counted as float
 features only and were tiled without them

---
 reagent/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/types.py b/reagent/types.py
index a052db0..d46a6d7 100644
--- a/reagent/types.py
+++ b/reagent/types.py
@@ -303,6 +303,7 @@ class FeatureData(TensorDataClass):
     def has_float_features_only(self) -> bool:
         return (
             not self.id_list_features
+            and not self.id_score_list_features
             and self.time_since_first is None
             and self.candidate_docs is None
         )
-- 
2.43.0


From 4f1d7b7acdb9b2a6658b9bfd2e412601bf34177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 46/66] fix: planning with fewer than ten candidates divided by
 zero

---
 reagent/models/cem_planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index dafdb30..825530c 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -185,7 +185,7 @@ class CEMPlannerNetwork(nn.Module):
         acc_reward_vec = np.zeros(self.cem_pop_size)
         init_state = state.float_features
         for i in range(self.cem_pop_size):
-            if i % (self.cem_pop_size // 10) == 0:
+            if i % max(1, self.cem_pop_size // 10) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
             acc_reward_vec[i] = self.acc_rewards_of_one_solution(
                 init_state, solutions[i], i
-- 
2.43.0


From 4c1e43a4dd1a37611221456d45309c7675fca3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 47/66] fix: plans could not be evaluated with more than one
 trajectory each

---
 reagent/models/cem_planner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index 825530c..e92bdbe 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -187,8 +187,8 @@ class CEMPlannerNetwork(nn.Module):
         for i in range(self.cem_pop_size):
             if i % max(1, self.cem_pop_size // 10) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
-            acc_reward_vec[i] = self.acc_rewards_of_one_solution(
-                init_state, solutions[i], i
+            acc_reward_vec[i] = np.mean(
+                self.acc_rewards_of_one_solution(init_state, solutions[i], i)
             )
         return acc_reward_vec
 
-- 
2.43.0


From fde7e44315b165472c79a8186c078caa8af42448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 48/66] fix: rows without legal arms at the end of a batch took
 the last legal arm of the row before

---
 reagent/gym/envs/changing_arms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/gym/envs/changing_arms.py b/reagent/gym/envs/changing_arms.py
index 17afeea..a64b69a 100644
--- a/reagent/gym/envs/changing_arms.py
+++ b/reagent/gym/envs/changing_arms.py
@@ -157,6 +157,7 @@ class ChangingArms(EnvWrapper):
         batch_indices, id_list_val = obs[:, 1, :].nonzero(as_tuple=True)
         offsets = []
         prev_batch_idx = -1
+        i, batch_idx = -1, -1
         for i, batch_idx in enumerate(batch_indices.tolist()):
             if batch_idx > prev_batch_idx:
                 offsets.extend([i] * (batch_idx - prev_batch_idx))
@@ -165,7 +166,7 @@ class ChangingArms(EnvWrapper):
                 assert batch_idx == prev_batch_idx
         # handle the case of trailing empty batches
         if batch_idx < batch_size - 1:
-            offsets.extend([i] * (batch_size - 1 - batch_idx))
+            offsets.extend([i + 1] * (batch_size - 1 - batch_idx))
         assert len(offsets) == batch_size, f"{len(offsets)} != {batch_size}."
         id_list_offsets = torch.tensor(offsets)
 
-- 
2.43.0


From 9fa1436e12df297a36a995941c005d2a98779d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 49/66] fix: an initial seed of zero was ignored

---
 reagent/gym/envs/toy_vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/gym/envs/toy_vm.py b/reagent/gym/envs/toy_vm.py
index 54df69a..214db4e 100644
--- a/reagent/gym/envs/toy_vm.py
+++ b/reagent/gym/envs/toy_vm.py
@@ -114,7 +114,7 @@ class ToyVM(EnvWrapper):
             ),
             zero_augment,
         )
-        if self.initial_seed:
+        if self.initial_seed is not None:
             env.seed(self.initial_seed)
         return env
 
-- 
2.43.0


From 17a715d055b32caefc46e53f18e4803c72148c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 50/66] fix: observations of a maze without ghosts in sight lay
 outside the declared space

---
 reagent/gym/envs/pomdp/pocman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/gym/envs/pomdp/pocman.py b/reagent/gym/envs/pomdp/pocman.py
index aa94a51..480c03c 100644
--- a/reagent/gym/envs/pomdp/pocman.py
+++ b/reagent/gym/envs/pomdp/pocman.py
@@ -216,7 +216,7 @@ class PocManEnv(Env):
         self.board = select_maze("micro")
         self._get_init_state()
         self.action_space = Discrete(4)
-        self.observation_space = Box(low=0, high=1, shape=(STATE_DIM,))
+        self.observation_space = Box(low=-1, high=1, shape=(STATE_DIM,))
         self._reward_range = 100
         self.step_cnt = 0
         self.max_steps = self.board["_max_step"]
-- 
2.43.0


From 91d7db0a271d61126e9931c6a33b8cf9514a9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 51/66] fix: rankings one swap apart could be rewarded as if
 they were opposite

---
 reagent/gym/envs/oracle_pvm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/gym/envs/oracle_pvm.py b/reagent/gym/envs/oracle_pvm.py
index cd54338..33e6ded 100644
--- a/reagent/gym/envs/oracle_pvm.py
+++ b/reagent/gym/envs/oracle_pvm.py
@@ -121,7 +121,10 @@ class OraclePVM(RecSim):
         if num_matches == self.slate_size:
             reward = MATCH_REWARD_BOOST
         else:
-            reward, _p_value = stats.kendalltau(ground_truth_ranking, policy_ranking)
+            # correlate the positions documents take, not the order they are listed in
+            reward, _p_value = stats.kendalltau(
+                np.argsort(ground_truth_ranking), np.argsort(policy_ranking)
+            )
         return self.prev_obs, reward, t, None
 
     def is_match(self, reward):
-- 
2.43.0


From b3f1a25f08f8eed02ab877f113a1df8e4ecdfbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:46 +0000
Subject: [PATCH 52/66] fix: every served module was saved as the default one,
 to the same file

---
 reagent/workflow/model_managers/model_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index 31b7250..cef88a5 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -271,8 +271,9 @@ class ModelManager(metaclass=RegistryMeta):
         output_paths = {}
         for module_name, serving_module in self.build_serving_modules().items():
             # TODO: make this a parameter
-            torchscript_output_path = f"model_{round(time.time())}.torchscript"
-            serving_module = self.build_serving_module()
+            torchscript_output_path = (
+                f"model_{module_name}_{round(time.time())}.torchscript"
+            )
             torch.jit.save(serving_module, torchscript_output_path)
             logger.info(f"Saved {module_name} to {torchscript_output_path}")
             output_paths[module_name] = torchscript_output_path
-- 
2.43.0


From 3ecdd04ac997051dc0c2217ad42e2c4fed489bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:46 +0000
Subject: [PATCH 53/66] fix: a saved discrete DQN trainer could not be resumed

---
 reagent/workflow/model_managers/discrete_dqn_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/discrete_dqn_base.py b/reagent/workflow/model_managers/discrete_dqn_base.py
index 53f9d9b..1413f03 100644
--- a/reagent/workflow/model_managers/discrete_dqn_base.py
+++ b/reagent/workflow/model_managers/discrete_dqn_base.py
@@ -162,7 +162,7 @@ class DiscreteDQNBase(ModelManager):
         self.trainer.set_reporter(reporter)
         assert data_module
 
-        train_eval_lightning(
+        self._lightning_trainer = train_eval_lightning(
             train_dataset=train_dataset,
             eval_dataset=eval_dataset,
             trainer_module=self.trainer,
-- 
2.43.0


From 1c3736974a4ed34ff70bc8e8ac2c33add4c9540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:46 +0000
Subject: [PATCH 54/66] fix: actor-critic training ignored the reader options
 of the run

---
 reagent/workflow/model_managers/actor_critic_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/actor_critic_base.py b/reagent/workflow/model_managers/actor_critic_base.py
index f93c25a..d6c2a83 100644
--- a/reagent/workflow/model_managers/actor_critic_base.py
+++ b/reagent/workflow/model_managers/actor_critic_base.py
@@ -257,7 +257,7 @@ class ActorCriticBase(ModelManager):
             num_epochs=num_epochs,
             use_gpu=self.use_gpu,
             batch_preprocessor=batch_preprocessor,
-            reader_options=self.reader_options,
+            reader_options=self.reader_options or reader_options,
             checkpoint_path=self._lightning_checkpoint_path,
             resource_options=resource_options or ResourceOptions(),
         )
-- 
2.43.0


From 85173d7c0ef187443a4efadc15bc07daf3196fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 55/66] fix: planner bounds were assigned to actions in the
 order of the dict, not of the features

---
 .../model_based/cross_entropy_method.py             | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/model_managers/model_based/cross_entropy_method.py b/reagent/workflow/model_managers/model_based/cross_entropy_method.py
index 3efee16..0776533 100644
--- a/reagent/workflow/model_managers/model_based/cross_entropy_method.py
+++ b/reagent/workflow/model_managers/model_based/cross_entropy_method.py
@@ -11,7 +11,10 @@ from reagent.gym.policies.policy import Policy
 from reagent.models.cem_planner import CEMPlannerNetwork
 from reagent.parameters import CEMTrainerParameters, param_hash
 from reagent.preprocessing.identify_types import CONTINUOUS_ACTION
-from reagent.preprocessing.normalization import get_num_output_features
+from reagent.preprocessing.normalization import (
+    get_num_output_features,
+    sort_features_by_normalization,
+)
 from reagent.training.cem_trainer import CEMTrainer
 from reagent.workflow.model_managers.model_based.world_model import WorldModel
 from reagent.workflow.model_managers.world_model_base import WorldModelBase
@@ -79,7 +82,13 @@ class CrossEntropyMethod(WorldModelBase):
         action_normalization_parameters = (
             self.action_normalization_data.dense_normalization_parameters
         )
-        sorted_action_norm_vals = list(action_normalization_parameters.values())
+        sorted_action_features, _ = sort_features_by_normalization(
+            action_normalization_parameters
+        )
+        sorted_action_norm_vals = [
+            action_normalization_parameters[feature]
+            for feature in sorted_action_features
+        ]
         discrete_action = sorted_action_norm_vals[0].feature_type != CONTINUOUS_ACTION
         action_upper_bounds, action_lower_bounds = None, None
         if not discrete_action:
-- 
2.43.0


From 44f5361c354834621494282ae8892c81bcdda999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 56/66] fix: policies of published parametric models took
 missing features as present

---
 reagent/gym/policies/scorers/discrete_scorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/policies/scorers/discrete_scorer.py b/reagent/gym/policies/scorers/discrete_scorer.py
index 3e461ab..540807f 100644
--- a/reagent/gym/policies/scorers/discrete_scorer.py
+++ b/reagent/gym/policies/scorers/discrete_scorer.py
@@ -93,7 +93,7 @@ def parametric_dqn_serving_scorer(
 ) -> Scorer:
     @torch.no_grad()
     def score(value_presence: Tuple[torch.Tensor, torch.Tensor]) -> torch.Tensor:
-        obs = value_presence[0]
+        obs, presence = value_presence
         tiled_state, possible_actions = get_parametric_input(
             max_num_actions, rlt.FeatureData(obs)
         )
@@ -102,7 +102,7 @@ def parametric_dqn_serving_scorer(
         action_names, q_values = q_network(
             state_with_presence=(
                 tiled_state_tensor,
-                torch.ones_like(tiled_state_tensor),
+                presence.repeat_interleave(repeats=max_num_actions, dim=0),
             ),
             action_with_presence=(
                 possible_actions_tensor,
-- 
2.43.0


From 48c38a4907e5be416f052388dc82d64b2c216833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 57/66] fix: actor builders ignored use_layer_norm

---
 reagent/models/actor.py                                 | 2 ++
 reagent/net_builder/continuous_actor/fully_connected.py | 1 +
 reagent/net_builder/discrete_actor/fully_connected.py   | 1 +
 3 files changed, 4 insertions(+)

diff --git a/reagent/models/actor.py b/reagent/models/actor.py
index 0660e0a..6d0f91a 100644
--- a/reagent/models/actor.py
+++ b/reagent/models/actor.py
@@ -41,6 +41,7 @@ class FullyConnectedActor(ModelBase):
         use_batch_norm: bool = False,
         action_activation: str = "tanh",
         exploration_variance: Optional[float] = None,
+        use_layer_norm: bool = False,
     ):
         super().__init__()
         assert state_dim > 0, "state_dim must be > 0, got {}".format(state_dim)
@@ -57,6 +58,7 @@ class FullyConnectedActor(ModelBase):
             [state_dim] + sizes + [action_dim],
             activations + [self.action_activation],
             use_batch_norm=use_batch_norm,
+            use_layer_norm=use_layer_norm,
         )
 
         # Gaussian noise for exploration.
diff --git a/reagent/net_builder/continuous_actor/fully_connected.py b/reagent/net_builder/continuous_actor/fully_connected.py
index 4b11355..43271b1 100644
--- a/reagent/net_builder/continuous_actor/fully_connected.py
+++ b/reagent/net_builder/continuous_actor/fully_connected.py
@@ -50,6 +50,7 @@ class FullyConnected(ContinuousActorNetBuilder):
             sizes=self.sizes,
             activations=self.activations,
             use_batch_norm=self.use_batch_norm,
+            use_layer_norm=self.use_layer_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
         )
diff --git a/reagent/net_builder/discrete_actor/fully_connected.py b/reagent/net_builder/discrete_actor/fully_connected.py
index 4191b7b..6d834b6 100644
--- a/reagent/net_builder/discrete_actor/fully_connected.py
+++ b/reagent/net_builder/discrete_actor/fully_connected.py
@@ -42,6 +42,7 @@ class FullyConnected(DiscreteActorNetBuilder):
             sizes=self.sizes,
             activations=self.activations,
             use_batch_norm=self.use_batch_norm,
+            use_layer_norm=self.use_layer_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
         )
-- 
2.43.0


From 9fe5675e9499a4cde9fecaaa3356692fb352da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 58/66] fix: a replay buffer restored from a checkpoint had
 nothing to sample

---
 reagent/replay_memory/circular_replay_buffer.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index ce5fabd..5aaaa1e 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -272,6 +272,14 @@ STORE_FILENAME_PREFIX = "$store$_"
 # This constant determines how many iterations a checkpoint is kept for.
 CHECKPOINT_DURATION = 4
 
+# Private members that are checkpointed too: they decide what can be sampled.
+# Checkpoints written before they were saved don't have them.
+SAMPLING_STATE = [
+    "_is_index_valid",
+    "_num_valid_indices",
+    "_num_transitions_in_current_episode",
+]
+
 REQUIRED_KEYS = ["observation", "action", "reward", "terminal"]
 
 
@@ -795,7 +803,7 @@ class ReplayBuffer(object):
 
         checkpointable_elements = self._return_checkpointable_elements()
 
-        for attr in checkpointable_elements:
+        for attr in [*checkpointable_elements, *SAMPLING_STATE]:
             filename = self._generate_filename(checkpoint_dir, attr, iteration_number)
             with open(filename, "wb") as f:
                 with gzip.GzipFile(fileobj=f) as outfile:
@@ -858,3 +866,9 @@ class ReplayBuffer(object):
                         self.__dict__[attr] = np.load(infile, allow_pickle=False)
                     else:
                         self.__dict__[attr] = pickle.load(infile)
+        for attr in SAMPLING_STATE:
+            filename = self._generate_filename(checkpoint_dir, attr, suffix)
+            if os.path.exists(filename):
+                with open(filename, "rb") as f:
+                    with gzip.GzipFile(fileobj=f) as infile:
+                        self.__dict__[attr] = pickle.load(infile)
-- 
2.43.0


From 4d760c6067a76000ddc9a2788771dbd393b2b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 59/66] fix: replay buffers with lists of ids could not be
 checkpointed

---
 .../replay_memory/circular_replay_buffer.py    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index 5aaaa1e..af4c483 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -813,9 +813,12 @@ class ReplayBuffer(object):
                     # self._store.
                     if attr.startswith(STORE_FILENAME_PREFIX):
                         array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        np.save(
-                            outfile, self._store[array_name].numpy(), allow_pickle=False
-                        )
+                        array = self._store[array_name]
+                        if isinstance(array, np.ndarray):
+                            # lists of ids are kept in an array of objects
+                            pickle.dump(array, outfile)
+                        else:
+                            np.save(outfile, array.numpy(), allow_pickle=False)
                     # Some numpy arrays might not be part of storage
                     elif isinstance(self.__dict__[attr], np.ndarray):
                         np.save(outfile, self.__dict__[attr], allow_pickle=False)
@@ -859,9 +862,12 @@ class ReplayBuffer(object):
                 with gzip.GzipFile(fileobj=f) as infile:
                     if attr.startswith(STORE_FILENAME_PREFIX):
                         array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        self._store[array_name] = torch.from_numpy(
-                            np.load(infile, allow_pickle=False)
-                        )
+                        if isinstance(self._store[array_name], np.ndarray):
+                            self._store[array_name] = pickle.load(infile)
+                        else:
+                            self._store[array_name] = torch.from_numpy(
+                                np.load(infile, allow_pickle=False)
+                            )
                     elif isinstance(self.__dict__[attr], np.ndarray):
                         self.__dict__[attr] = np.load(infile, allow_pickle=False)
                     else:
-- 
2.43.0


From d90f03e3fd4977872d68e63580e904cf0960bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 60/66] fix: datasets exported from a replay buffer repeated
 and lost transitions

---
 reagent/replay_memory/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/utils.py b/reagent/replay_memory/utils.py
index dce70a3..d9a1d3c 100644
--- a/reagent/replay_memory/utils.py
+++ b/reagent/replay_memory/utils.py
@@ -27,7 +27,8 @@ def replay_buffer_to_pre_timeline_df(
 ) -> pd.DataFrame:
     """ Format needed for uploading dataset to Hive, and then run timeline. """
     n = replay_buffer.size
-    batch = replay_buffer.sample_transition_batch(batch_size=n)
+    # every transition once: rows are identified by mdp_id and sequence_number
+    batch = replay_buffer.sample_all_valid_transitions()
 
     # actions is inconsistent between models, so let's infer them.
     possible_actions_mask = getattr(batch, "possible_actions_mask", None)
-- 
2.43.0


From cf26160e273002a499cb2a437bf4727714053ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 61/66] fix: parallel evaluation discarded the experiments it
 was given

Evaluator pickles lists of (estimators, input) pairs, but run_evaluation
unpacked them as one (estimators, inputs) pair, so nothing was estimated.
---
 reagent/ope/estimators/estimator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index f53db8a..d5efbac 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -198,19 +198,18 @@ def run_evaluation(
     logger.info(f"received filename {file_name}")
     try:
         with open(file_name, "rb") as fp:
-            estimators, inputs = pickle.load(fp)
+            experiments = pickle.load(fp)
     except Exception as err:
         return None
     results = {}
-    for estimator in estimators:
-        estimator_name = repr(estimator)
-        estimator_results = []
-        for input in inputs:
+    for estimators, input in experiments:
+        for estimator in estimators:
+            estimator_name = repr(estimator)
+            estimator_results = results.setdefault(estimator_name, [])
             try:
                 estimator_results.append(estimator.evaluate(input))
             except Exception as err:
                 logger.error(f"{estimator_name} error {err}")
-        results[repr(estimator)] = estimator_results
     return results
 
 
-- 
2.43.0


From 3390ea38b5bcc3d2eb0c05780089001eb8152e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 62/66] fix: evaluation failed when an estimator had no
 estimate

Estimators may return None, which EstimatorResults.append dereferenced.
---
 reagent/ope/estimators/estimator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index d5efbac..32d55f4 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -75,12 +75,15 @@ class EstimatorResults:
     results: List[EstimatorResult] = field(default_factory=list)
     device = None
 
-    def append(self, result: EstimatorResult):
+    def append(self, result: Optional[EstimatorResult]):
         """Append a data point
 
         Args:
-            result: result from an experimental run
+            result: result from an experimental run, None if there is no estimate
         """
+        if result is None:
+            logging.warning("  No estimate")
+            return
         er = result.estimated_reward
         if math.isnan(er) or math.isinf(er):
             logging.warning(f"  Invalid estimate: {er}")
-- 
2.43.0


From 019ddadea091384579d9b50f900a8fb6f3e9ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 63/66] fix: logged policy estimates showed the wrong numbers

The format strings printed the normalized estimate as its own error and the
normalized error as the raw estimate.
---
 reagent/evaluation/cpe.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/reagent/evaluation/cpe.py b/reagent/evaluation/cpe.py
index 2038349..94020e1 100644
--- a/reagent/evaluation/cpe.py
+++ b/reagent/evaluation/cpe.py
@@ -45,7 +45,7 @@ class CpeEstimateSet(NamedTuple):
         self.check_estimates_exist()
 
         logger.info(
-            "Reward Inverse Propensity Score : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Inverse Propensity Score : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.inverse_propensity.normalized,
                 self.inverse_propensity.normalized_std_error,
                 self.inverse_propensity.raw,
@@ -54,7 +54,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Reward Direct Method : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Direct Method : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.direct_method.normalized,
                 self.direct_method.normalized_std_error,
                 self.direct_method.raw,
@@ -63,7 +63,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Reward Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.doubly_robust.normalized,
                 self.doubly_robust.normalized_std_error,
                 self.doubly_robust.raw,
@@ -72,7 +72,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Value Weighted Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Weighted Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.weighted_doubly_robust.normalized,
                 self.weighted_doubly_robust.normalized_std_error,
                 self.weighted_doubly_robust.raw,
@@ -80,7 +80,7 @@ class CpeEstimateSet(NamedTuple):
             )
         )
         logger.info(
-            "Value Sequential Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Sequential Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.sequential_doubly_robust.normalized,
                 self.sequential_doubly_robust.normalized_std_error,
                 self.sequential_doubly_robust.raw,
@@ -88,7 +88,7 @@ class CpeEstimateSet(NamedTuple):
             )
         )
         logger.info(
-            "Value Magic Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Magic Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.magic.normalized,
                 self.magic.normalized_std_error,
                 self.magic.raw,
-- 
2.43.0


From aee05c8dd1d41f9b42dd0316c773a4518f114821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 64/66] fix: evolution pools could not be imported

evolution_pool imported a module that is not part of PyTorch and that it does
not use.
---
 reagent/training/gradient_free/evolution_pool.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/reagent/training/gradient_free/evolution_pool.py b/reagent/training/gradient_free/evolution_pool.py
index 0af0528..ebc2a99 100644
--- a/reagent/training/gradient_free/evolution_pool.py
+++ b/reagent/training/gradient_free/evolution_pool.py
@@ -5,7 +5,6 @@ import logging
 from typing import Dict, List
 
 import torch
-import torch.fb.rendezvous.zeus
 import torch.nn
 import torch.optim
 from reagent.parameters import EvolutionParameters
-- 
2.43.0


From c1c8f8e8b403f20c1c7b72fcf1451106de96878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 65/66] fix: evolution workers passed their process group as
 the reduce operation

The second positional argument of all_reduce is the operation.
---
 reagent/training/gradient_free/es_worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/gradient_free/es_worker.py b/reagent/training/gradient_free/es_worker.py
index 4176021..81e90ef 100644
--- a/reagent/training/gradient_free/es_worker.py
+++ b/reagent/training/gradient_free/es_worker.py
@@ -41,7 +41,7 @@ class EsWorker:
         logger.info("Pushing reward")
 
         # Sum the rewards across all machines
-        distributed.all_reduce(rewards, self.process_group)
+        distributed.all_reduce(rewards, group=self.process_group)
 
         # Divide the rewards by the number of machines.  We do this because
         # there is no "average" all_reduce operator.
-- 
2.43.0


From 7d02d6addc7725511405bde81706876e7f541332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 66/66] fix: imitator trainer never accumulated minibatches

The minibatch counter stayed at zero, so that a (scaled down) optimizer step was
taken on every minibatch, whatever minibatches_per_step.
---
 reagent/training/imitator_training.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/training/imitator_training.py b/reagent/training/imitator_training.py
index 25aef36..c547327 100644
--- a/reagent/training/imitator_training.py
+++ b/reagent/training/imitator_training.py
@@ -49,6 +49,7 @@ class ImitatorTrainer(RLTrainer):
             actual_action_idxs = torch.max(learning_input.action, dim=1)[1]
 
             if train:
+                self.minibatch += 1
                 imitator_loss = torch.nn.CrossEntropyLoss()
                 bcq_loss = imitator_loss(action_preds, actual_action_idxs)
                 bcq_loss.backward()
-- 
2.43.0

