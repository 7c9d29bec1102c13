prop("D01", "Discrete Q-learning regresses on the Bellman target",
     "For every batch of transitions, training a discrete Q-network minimises the configured loss between the value of the "
     "logged action and reward plus reward boost plus discounted next-state value, where the next-state value is the maximum over allowed "
     "actions (or the logged next action), chosen by the online network when double Q-learning is on, and counts as zero "
     "after a terminal step. The discount follows the time difference or the number of steps when so configured. "
     "No gradient reaches the target network and actions the batch-constraint filter rejects are never used.",
     "inputs configurations", "all rewards, masks, discounts' exponents, terminal flags, network outputs; double/max-Q/SARSA, loss type, boosts, batch-constraint threshold",
     "No test runs a train step of this trainer; the target depends on an unbounded choice of values and masks.",
     "reagent/training/dqn_trainer.py reagent/training/dqn_trainer_base.py reagent/training/imitator_training.py",
     ["target computation @ reagent/training/dqn_trainer.py:DQNTrainer.train_step_gen", "masked maximum @ reagent/training/dqn_trainer_base.py:get_max_q_values_with_target"])
prop("D02", "Evaluation heads of discrete Q-learning learn rewards and metric values",
     "When counterfactual evaluation is enabled, the reward head is regressed on the observed reward and metrics of the logged action, "
     "and the metric-value head on each observed metric plus the discounted expectation of its target head under the softmax policy over allowed next actions, "
     "with nothing added after a terminal step. A masked softmax is a probability distribution over exactly the allowed entries, "
     "proportional to the exponential of score over temperature, and is all zero when nothing is allowed.",
     "inputs configurations", "all scores, masks, temperatures, rewards, metrics, terminal flags",
     "No test reaches the evaluation losses; masked softmax is sampled at a handful of points.",
     "reagent/training/dqn_trainer_base.py reagent/torch_utils.py",
     ["evaluation heads @ reagent/training/dqn_trainer_base.py:_calculate_cpes", "masked softmax @ reagent/torch_utils.py:masked_softmax"])

prop("D03", "Target networks track their own online network at the configured rate",
     "A soft update moves every target parameter to rate * online + (1 - rate) * target and leaves the online parameters alone, for any rate in [0, 1]; "
     "rates outside it and mismatched parameter lists are refused. Every trainer with target networks pairs each target with its own online network, in parameter order. "
     "One batch advances a trainer through all of its losses in the order of its optimizers, once each.",
     "inputs configurations", "all parameter values, all rates, all value-based and actor-critic trainers",
     "Tests never run the soft update of a trainer; a swapped or missing pair still trains.",
     "reagent/optimizer/soft_update.py reagent/training/reagent_lightning_module.py reagent/training/dqn_trainer.py reagent/training/sac_trainer.py reagent/training/td3_trainer.py",
     ["Polyak step @ reagent/optimizer/soft_update.py:SoftUpdate.step", "loss protocol @ reagent/training/reagent_lightning_module.py:ReAgentLightningModule.training_step"])
prop("D04", "Parametric-action Q-learning regresses on the Bellman target",
     "For every batch, training a parametric-action Q-network minimises the configured loss between the value of the logged (state, action) pair and reward plus "
     "discounted value of the next state: the maximum over allowed candidate actions (chosen by the online network under double Q-learning) or the logged next action, and zero after a terminal step. "
     "The reward network is regressed on the reward and observed metrics of the logged action.",
     "inputs configurations", "all rewards, masks, terminal flags, time differences, candidate actions and network outputs",
     "No test runs a train step of this trainer.",
     "reagent/training/parametric_dqn_trainer.py reagent/training/dqn_trainer_base.py",
     ["target @ reagent/training/parametric_dqn_trainer.py:ParametricDQNTrainer.train_step_gen"])
prop("D05", "Categorical Q-learning projects the Bellman target onto its atoms",
     "Training a categorical (C51) Q-network minimises the cross entropy between the logged action's distribution and the projection of reward + discount * atom "
     "(clipped to the value range, split linearly between neighbouring atoms, so that mass sums to one) of the next action's target distribution, the next action being the best allowed one or the logged one. "
     "The reported value of an action is the expectation of its distribution over the atoms.",
     "inputs configurations", "all rewards, distributions, masks, terminal flags; several ranges and atom counts",
     "No test runs a train step; projection has boundary cases at each atom that sampling misses.",
     "reagent/training/c51_trainer.py reagent/models/categorical_dqn.py",
     ["projection @ reagent/training/c51_trainer.py:C51Trainer.train_step_gen", "read-out @ reagent/models/categorical_dqn.py:CategoricalDQN"])
prop("D06", "Quantile-regression Q-learning minimises the quantile Huber loss",
     "Training a quantile Q-network minimises the quantile Huber loss of the logged action's quantiles against reward + discount * target quantiles of the next action "
     "(the best allowed one by mean, chosen online under double Q-learning, or the logged one), summed and averaged as the algorithm states, with nothing added after a terminal step. "
     "With counterfactual evaluation enabled its reward and metric heads receive their own losses and optimizers.",
     "inputs configurations", "all rewards, quantile values, masks, terminal flags",
     "No test runs a train step of this trainer.",
     "reagent/training/qrdqn_trainer.py",
     ["quantile loss @ reagent/training/qrdqn_trainer.py:QRDQNTrainer.train_step_gen", "optimizers @ reagent/training/qrdqn_trainer.py:QRDQNTrainer.configure_optimizers"])
prop("D07", "Soft actor-critic regresses on the soft value and trains actor and temperature",
     "Each critic is regressed on reward + discount * soft value of the next state, which is the minimum of the target critics minus temperature * log-probability of the next action (or the target value network), zero after a terminal step. "
     "The actor minimises temperature * log-probability minus the minimum critic (or the configured advantage-weighted log-likelihood), the value network is regressed on the soft value, and a learned temperature follows the entropy target. "
     "Each loss trains only its own network.",
     "inputs configurations", "all rewards, terminal flags, network outputs; one/two critics, value network, learned temperature, advantage weighting, embedding divergence",
     "No test runs a train step of this trainer.",
     "reagent/training/sac_trainer.py",
     ["losses @ reagent/training/sac_trainer.py:SACTrainer.train_step_gen"])
prop("D08", "TD3 learns twin critics on a smoothed target and delays policy updates",
     "Each critic is regressed on reward + discount * minimum of the target critics at the target policy's next action plus clipped noise, clipped to the action range, zero after a terminal step. "
     "The actor maximises the first critic, and actor and targets are updated only on every k-th batch while the critics are updated on each.",
     "inputs configurations", "all rewards, noise, terminal flags, network outputs; one/two critics, delays 1-3",
     "No test runs a train step of this trainer.",
     "reagent/training/td3_trainer.py",
     ["losses @ reagent/training/td3_trainer.py:TD3Trainer.train_step_gen"])
prop("D09", "Discrete critic-regularised regression weighs imitation by advantage",
     "Each critic is regressed, at the logged action, on reward + discount * policy expectation of the minimum target critic at the next state, zero after a terminal step. "
     "The actor minimises the negative log-probability of the logged action weighted by the exponential of its advantage over the policy expectation. "
     "Between delayed policy updates each loss still reaches its own optimizer, evaluation heads included.",
     "inputs configurations", "all rewards, actions, terminal flags, network outputs; delays 1-2, evaluation heads",
     "No test runs a train step of this trainer.",
     "reagent/training/discrete_crr_trainer.py",
     ["losses @ reagent/training/discrete_crr_trainer.py:DiscreteCRRTrainer.train_step_gen"])
prop("D10", "SlateQ decomposes slate values over the items that were observed",
     "Training a SlateQ network minimises the squared error between the values of the items shown and item reward + discount * next-slate value, only at observed positions. "
     "The next-slate value is the selection-weighted average of target values of the next slate's items, weights being the softmax or share of their choice scores, and is zero after a terminal step.",
     "inputs configurations", "all slates, choice scores, rewards, masks, terminal flags, network outputs",
     "No test runs a train step of this trainer.",
     "reagent/training/slate_q_trainer.py",
     ["losses @ reagent/training/slate_q_trainer.py:SlateQTrainer.train_step_gen"])
prop("D11", "Policy-gradient updates follow the discounted return",
     "A discounted return is the sum of later rewards weighted by powers of the discount; whitening centres and scales as asked. "
     "REINFORCE updates along return-weighted log-probability gradients, with optional baseline, reward clipping, and clipped importance weights; PPO updates along the clipped surrogate with value loss and entropy bonus. "
     "Trajectories are accumulated and applied at the configured frequency.",
     "inputs configurations", "all rewards, actions, scores, logged propensities",
     "Tests only check that training improves a toy environment.",
     "reagent/training/reinforce.py reagent/training/ppo_trainer.py reagent/training/utils.py",
     ["returns @ reagent/training/utils.py:discounted_returns", "loss @ reagent/training/reinforce.py:Reinforce", "surrogate @ reagent/training/ppo_trainer.py:PPOTrainer._trajectory_to_losses"])
prop("D12", "Samplers draw from the distribution they report and scorers mask actions",
     "A greedy choice is the best-scored action with log-probability zero for it alone; softmax draws in proportion to exponentiated scores over temperature; epsilon-greedy spreads epsilon evenly over the possible actions and gives the rest to the best; top-k keeps the k best in order. "
     "The log-probability reported for any action is that of the distribution drawn from. "
     "Scorers never let an impossible action win, and random policies draw uniformly among the possible actions.",
     "inputs configurations", "all scores, masks, actions and draws; two to four actions",
     "Samplers and scorers are only used indirectly, with a handful of random draws.",
     "reagent/gym/policies/samplers/discrete_sampler.py reagent/gym/policies/samplers/top_k_sampler.py reagent/gym/policies/scorers/discrete_scorer.py reagent/gym/policies/random_policies.py",
     ["sampling @ reagent/gym/policies/samplers/discrete_sampler.py:SoftmaxActionSampler", "masking @ reagent/gym/policies/scorers/discrete_scorer.py:apply_possible_actions_mask",
      "uniform draws @ reagent/gym/policies/random_policies.py:DiscreteRandomPolicy"])
prop("D13", "Continuous actors report the density of the action they take",
     "The Gaussian actor's action is the squashed draw, stays inside the open unit range, and its log-density is the normal density minus the squashing correction, both when acting and when scoring a logged action. "
     "The deterministic actor adds noise only when asked and stays clamped in range; the Dirichlet actor draws with the concentrations its network gives. "
     "The continuous sampler explores or takes the squashed mean as configured.",
     "inputs configurations", "all network outputs, draws and scored actions; one and two dimensions",
     "Tests check shapes and serving, not values.",
     "reagent/models/actor.py reagent/gym/policies/samplers/continuous_sampler.py",
     ["squashed Gaussian @ reagent/models/actor.py:GaussianFullyConnectedActor", "sampler @ reagent/gym/policies/samplers/continuous_sampler.py:GaussianSampler"])
prop("D14", "Value networks compose layers, duel, mask and filter as configured",
     "A fully connected network applies its layers and activations in order; the dueling networks add state value to advantage minus mean advantage (or subtract nothing when parametric states so). "
     "Impossible actions receive a value no possible action can lose to, and the batch-constrained filter keeps exactly the actions whose imitation probability relative to the best reaches the threshold.",
     "inputs configurations", "all weights, states, masks and thresholds at small layer sizes",
     "Tests check shapes and known-seed outputs only.",
     "reagent/models/fully_connected_network.py reagent/models/dueling_q_network.py reagent/models/dqn.py reagent/models/bcq.py",
     ["composition @ reagent/models/fully_connected_network.py:FullyConnectedNetwork", "dueling @ reagent/models/dueling_q_network.py:DuelingQNetwork", "filter @ reagent/models/bcq.py:BatchConstrainedDQN"])
prop("D15", "Frechet sort ranks by perturbed score and reports that ranking's probability",
     "The sampled ranking sorts items by log score plus Gumbel noise scaled by the inverse shape. "
     "Its log-probability is that of drawing items without replacement in proportion to score to the power of the shape, over the first top-k (or equivalent) positions. "
     "Top-k truncates each ranking, leaving the batch whole.",
     "inputs configurations", "all scores, noises and rankings of up to four items",
     "Tests compare empirical frequencies for a few score vectors.",
     "reagent/samplers/frechet.py",
     ["sampling and probability @ reagent/samplers/frechet.py:FrechetSort"])
prop("D16", "Prioritized sampling is proportional to priority and never invalid",
     "After any assignments the sum tree returns the leaf whose share of the total contains the drawn position, so leaves are picked in proportion to priority and a leaf of zero priority never; stratified draws take one position from each equal share. "
     "The prioritized buffer samples only indices that may be sampled, reports their current priorities, and fails rather than returning an invalid index.",
     "inputs histories", "all priorities, positions, updates; trees up to five leaves, short histories",
     "Tests sample a few fixed priorities.",
     "reagent/replay_memory/sum_tree.py reagent/replay_memory/prioritized_replay_buffer.py",
     ["sum tree @ reagent/replay_memory/sum_tree.py:SumTree", "sampling @ reagent/replay_memory/prioritized_replay_buffer.py:PrioritizedReplayBuffer"])
prop("D17", "The replay buffer samples only complete transitions and reads them back exactly",
     "After any history of additions, terminal steps and overwrites, an index may be sampled exactly when its stacked history and its n-step (or to-terminal) future are all in the buffer. "
     "A sample holds the stacked states of its own episode (zero before its start), the logged action, the discounted sum of rewards up to a terminal step, the state n steps on and the terminal flag and step count of that window.",
     "inputs histories", "all observations, rewards, actions, terminal patterns and lengths of short histories; several capacities, stacks and horizons",
     "Tests follow a few fixed histories.",
     "reagent/replay_memory/circular_replay_buffer.py",
     ["validity and sampling @ reagent/replay_memory/circular_replay_buffer.py:ReplayBuffer"])
prop("D18", "Preprocessing maps each feature by its declared type and statistics",
     "A normalised batch has one block of columns per declared feature, in the fixed type order, and each value is the documented function of the raw value and that feature's statistics: standardised, Box-Cox, quantile, one-hot, logit, log, action-scaled or copied. "
     "Missing values become zero in every column of their feature, and non-action outputs stay inside the clamp range.",
     "inputs configurations", "all raw values, presence masks and statistics; every feature type, alone and mixed, up to three features",
     "Tests compare a few sampled columns with a second numpy implementation.",
     "reagent/preprocessing/preprocessor.py reagent/preprocessing/normalization.py",
     ["per-type transforms @ reagent/preprocessing/preprocessor.py:Preprocessor"])
prop("D19", "Identified normalisation describes its samples; action scaling inverts",
     "The type and statistics identified for a feature are those of the samples as transformed: range, mean, deviation, distinct values, quantiles or fitted power, chosen by the documented thresholds and switches. "
     "Scaling an action into the training range and back to the serving range returns the clamped action, and serving actions never leave their range.",
     "inputs configurations", "all sample values (a few free among twenty), fit results, test statistics and action ranges",
     "Tests identify types of a few generated columns and never round-trip symbolic ranges.",
     "reagent/preprocessing/normalization.py reagent/preprocessing/identify_types.py reagent/preprocessing/postprocessor.py",
     ["identification @ reagent/preprocessing/normalization.py:identify_parameter", "inverse scaling @ reagent/preprocessing/postprocessor.py:Postprocessor"])
prop("D20", "Raw batches become training batches without losing or moving values",
     "Data transforms place every value, presence bit, id list and action where the trainer expects it: one-hot of the logged action, masked missing values, slates gathered by index, sparse maps spread over dense columns with presence. "
     "Batch preprocessors fill state, next state, action, next action, reward, terminal flag, time difference and action probabilities from the like-named columns only.",
     "inputs configurations", "all values, presence bits, ids and index patterns of small batches",
     "Tests feed one or two literal batches per transform.",
     "reagent/preprocessing/transforms.py reagent/preprocessing/sparse_to_dense.py reagent/preprocessing/batch_preprocessor.py",
     ["transforms @ reagent/preprocessing/transforms.py:Compose", "sparse to dense @ reagent/preprocessing/sparse_to_dense.py:PythonSparseToDenseProcessor", "batches @ reagent/preprocessing/batch_preprocessor.py:DiscreteDqnBatchPreprocessor"])
prop("D21", "Counterfactual estimators compute their formulas from the logged page",
     "Direct-method, inverse-propensity and doubly robust values are the sample means of their documented terms; the sequential estimator recurses backwards through each episode, and the weighted one averages cumulative-weight returns over equal-length trajectories. "
     "Scores are normalised by the logged policy's own score, and not at all when that score is (nearly) zero or negative. "
     "The blended estimator minimises variance plus squared bias over horizon returns.",
     "inputs configurations", "all rewards, propensities, values, logged actions and episode splits of up to four samples and three actions",
     "Tests compare estimators with each other on one literal page, at loose tolerance.",
     "reagent/evaluation/doubly_robust_estimator.py reagent/evaluation/sequential_doubly_robust_estimator.py reagent/evaluation/weighted_sequential_doubly_robust_estimator.py reagent/evaluation/cpe.py",
     ["single-step estimators @ reagent/evaluation/doubly_robust_estimator.py:DoublyRobustEstimator", "sequential @ reagent/evaluation/sequential_doubly_robust_estimator.py:SequentialDoublyRobustEstimator",
      "weighted and blended @ reagent/evaluation/weighted_sequential_doubly_robust_estimator.py:WeightedSequentialDoublyRobustEstimator"])
prop("D22", "An evaluation page holds what the batch logged and the model predicts",
     "A page made from a training batch carries the logged reward, probability and action of every sample and the model's propensities, rewards, values and metrics for the same state and actions, leaving the networks in their former mode. "
     "Appending, sorting, summing values along episodes and scoring a metric in place of the reward keep every field aligned with its sample. "
     "Validation accepts exactly pages whose episodes are whole and in order.",
     "inputs configurations", "all batch contents, network outputs, episode numbers and metrics of up to four samples",
     "Tests build pages only for ranking models, from literal tensors.",
     "reagent/evaluation/evaluation_data_page.py",
     ["page contents @ reagent/evaluation/evaluation_data_page.py:EvaluationDataPage"])
prop("D23", "Evaluation reports and the estimator adapter keep actions and metrics apart",
     "A post-training report holds, for the reward and for each metric, the estimates computed from that quantity's own logged values and predictions, and per action the mean, spread and share of the model's values. "
     "The adapter hands off-policy estimators every logged sample and every step of every episode with its own reward, probabilities, action and predictions, and returns each estimate in its own place.",
     "inputs configurations", "all rewards, propensities, values, metrics and logged actions of up to six steps and three actions",
     "Tests run the adapter on one generated page and compare estimators loosely.",
     "reagent/evaluation/evaluator.py reagent/evaluation/ope_adapter.py",
     ["report @ reagent/evaluation/evaluator.py:Evaluator", "adapter @ reagent/evaluation/ope_adapter.py:OPEstimatorAdapter"])
prop("D24", "Off-policy evaluation containers stay consistent with what they hold",
     "A distribution over actions is its values divided by their sum, ranks and samples by them, and keeps doing so after values are set or replaced. "
     "Item lists, averages, clamps, caches and one-hot helpers return exactly what was put in: the mean of the finite additions, values inside the bounds, the most recently used entries.",
     "inputs histories", "all values, keys, indices and short operation sequences; up to four items",
     "Tests build a handful of literal containers and never update one after reading it.",
     "reagent/ope/estimators/types.py reagent/ope/utils.py",
     ["values and distributions @ reagent/ope/estimators/types.py:Values", "helpers @ reagent/ope/utils.py:RunningAverage"])
prop("D25", "Contextual-bandit estimators compute their formulas from the logged samples",
     "Direct-method, inverse-propensity (plain or self-normalised) and doubly robust values are the means of their documented terms, with clamped weights and none for an action of zero logged probability; with cross-fitting each half is judged by a model fitted to the other half. "
     "The switch estimators use importance weights up to a threshold and predictions beyond it, choosing the threshold of least estimated error.",
     "inputs configurations", "all rewards, propensities, predictions and logged actions (switch: propensity tables) of up to five samples and three actions",
     "Tests check that a few generated estimates are near the truth.",
     "reagent/ope/estimators/contextual_bandits_estimators.py reagent/ope/estimators/estimator.py",
     ["direct, inverse, doubly robust @ reagent/ope/estimators/contextual_bandits_estimators.py:DoublyRobustEstimator", "switch @ reagent/ope/estimators/contextual_bandits_estimators.py:SwitchEstimator"])
prop("D26", "Sequential off-policy estimators compute their formulas over whole trajectories",
     "Importance-sampled, direct, doubly robust and blended (MAGIC) values follow their documented recursions over every step of every trajectory, with absent steps weighing nothing, one discount per step, and (self-normalised or clamped) cumulative weights. "
     "Density-ratio estimation descends its documented losses and reports the reweighted mean reward. "
     "Wrapped policies (random, epsilon-greedy) mix the given policy's probabilities exactly.",
     "inputs histories", "all rewards, values and probabilities of up to three trajectories of up to three steps and three actions; MAGIC on listed tables, draws and steps",
     "Tests run estimators on one grid world and compare them loosely.",
     "reagent/ope/estimators/sequential_estimators.py",
     ["importance sampling @ reagent/ope/estimators/sequential_estimators.py:IPSEstimator", "doubly robust @ reagent/ope/estimators/sequential_estimators.py:DoublyRobustEstimator",
      "blended @ reagent/ope/estimators/sequential_estimators.py:MAGICEstimator", "density ratio @ reagent/ope/estimators/sequential_estimators.py:NeuralDualDICE"])
prop("D27", "Slate distributions, metrics and estimators agree with drawing without replacing",
     "The probability of a slate, the enumeration of all slates and each item's share at each slot are those of drawing items without replacement in proportion to their scores, or of the single best slate when greedy. "
     "Slate metrics are their documented weighted sums, and the inverse-propensity, direct, doubly robust, position-based and pseudo-inverse estimates the means of their documented terms over usable samples.",
     "inputs configurations", "all scores, rewards, probabilities and features; up to three items (four thorough), two or three slots, listed or named",
     "Tests check a few literal distributions and compare estimators loosely.",
     "reagent/ope/estimators/slate_estimators.py",
     ["item distribution @ reagent/ope/estimators/slate_estimators.py:SlateItemProbabilities", "slot distribution @ reagent/ope/estimators/slate_estimators.py:SlateSlotItemProbabilities",
      "metrics @ reagent/ope/estimators/slate_estimators.py:DCGSlateMetric", "estimators @ reagent/ope/estimators/slate_estimators.py:IPSEstimator"])
prop("D28", "Tabular evaluation and regression trainers return what their definitions say",
     "Dynamic-programming values satisfy the policy's Bellman equation up to the threshold, the trained policy is greedy for its own values, and Monte Carlo values are mean returns from first (or all) visits. "
     "Tabular policies mix their table with uniform exploration, also after loading. "
     "Regression trainers fit every candidate on the training data, keep the best on the validation data and predict with it.",
     "inputs histories", "all rewards, table entries and candidate scores; listed small worlds and episode paths",
     "Tests train one grid world policy and compare estimates loosely.",
     "reagent/ope/trainers/rl_tabular_trainers.py reagent/ope/trainers/linear_trainers.py",
     ["dynamic programming @ reagent/ope/trainers/rl_tabular_trainers.py:DPValueFunction", "Monte Carlo @ reagent/ope/trainers/rl_tabular_trainers.py:MonteCarloValueFunction", "regression @ reagent/ope/trainers/linear_trainers.py:LinearTrainer"])
prop("D29", "Slate-ranking decoding reports the probabilities it draws with, and repeats them",
     "A sampled slate names different candidates, drawn one after another from the decoder's distribution over those not yet placed; greedy and score rankings list candidates from the best score down. "
     "The reported symbol and slate probabilities are those of that draw, and scoring the same slate afterwards (training modes) yields the same probabilities. "
     "Masks hide exactly later positions and placed items, and each example is encoded with its own state and candidates.",
     "inputs configurations", "all scores, states and item features; slates of up to three out of three (four thorough) candidates, up to two examples",
     "Tests compare decoding with a second implementation on random weights.",
     "reagent/models/seq2slate.py reagent/model_utils/seq2slate_utils.py reagent/types.py",
     ["decoding @ reagent/models/seq2slate.py:Seq2SlateTransformerModel", "masks @ reagent/model_utils/seq2slate_utils.py:mask_logits_by_idx", "derived decoder inputs @ reagent/types.py:PreprocessedRankingInput"])
prop("D30", "Ranking and reward-model trainers descend their documented objectives",
     "Slate-ranking trainers step on the importance-weighted (clamped as configured) reward less a baseline, the doubly robust reward of every candidate, the cross entropy of the target slate or the pairwise order of its items; "
     "the simulation trainer scores a slate its own current model drew, with the configured penalties and clamps. "
     "Baselines, warm-up and minibatch accumulation delay exactly the steps they say, and reward networks fit the batch's reward (ignoring outliers when told) and report that loss on evaluation pages.",
     "inputs histories", "all network outputs, rewards and propensities; up to three examples, slates of two or three items, up to four consecutive batches, every clamp and baseline mode",
     "Tests only train one tiny model until its loss falls.",
     "reagent/training/ranking/seq2slate_trainer.py reagent/training/ranking/helper.py reagent/training/ranking/seq2slate_dr_trainer.py reagent/training/ranking/seq2slate_tf_trainer.py reagent/training/ranking/seq2slate_attn_trainer.py reagent/training/ranking/seq2slate_sim_trainer.py reagent/training/reward_network_trainer.py reagent/evaluation/reward_net_evaluator.py",
     ["reinforce @ reagent/training/ranking/seq2slate_trainer.py:Seq2SlateTrainer", "clamp @ reagent/training/ranking/helper.py:ips_clamp", "simulation @ reagent/training/ranking/seq2slate_sim_trainer.py:Seq2SlateSimulationTrainer", "reward model @ reagent/training/reward_network_trainer.py:RewardNetTrainer"])
prop("D31", "World models and plan-value models fit what they predict, over every plan",
     "A world model's loss is the mixture's negative log likelihood of the next state plus weighted reward and termination errors, per step and example whatever the batch shape; its memory pool keeps the newest transitions whole. "
     "A plan-value model predicts the discounted sum of an episode's real steps only, its value of a state is the best over all action sequences, and the compressed model is fitted to exactly those values. "
     "World-model evaluators report losses and the share of change each feature causes.",
     "inputs histories", "all network outputs, states, rewards and terminal flags; up to three steps, examples, mixture components or actions",
     "Tests train on one random environment and check that losses fall.",
     "reagent/models/mdn_rnn.py reagent/models/world_model.py reagent/models/seq2reward_model.py reagent/training/world_model/mdnrnn_trainer.py reagent/training/world_model/seq2reward_trainer.py reagent/training/world_model/compress_model_trainer.py reagent/evaluation/world_model_evaluator.py reagent/evaluation/seq2reward_evaluator.py reagent/evaluation/compress_model_evaluator.py reagent/training/utils.py",
     ["mixture loss @ reagent/models/mdn_rnn.py:gmm_loss", "memory pool @ reagent/models/mdn_rnn.py:MDNRNNMemoryPool", "plan values @ reagent/training/world_model/seq2reward_trainer.py:get_Q", "feature effects @ reagent/evaluation/world_model_evaluator.py:FeatureImportanceEvaluator"])
prop("D32", "Slate evaluators and slate reward models read each list in its own order",
     "Listwise metrics compare the model's list, the logged list and the true rewards by candidate, skip lists with nothing to rank, and leave the model's mode as found. "
     "Reward models for slates encode each example's state, candidates and placed items in the slate's order, with attention over exactly the allowed positions.",
     "inputs configurations", "all scores, features and network weights in the listed shapes; slates of up to three items, up to two examples, listed slates",
     "Tests never evaluate a ranking model on a page and only check the shapes of reward models.",
     "reagent/evaluation/ranking_listwise_evaluator.py reagent/evaluation/ranking_policy_gradient_evaluator.py reagent/models/seq2slate_reward.py reagent/models/seq2slate.py",
     ["listwise metrics @ reagent/evaluation/ranking_listwise_evaluator.py:RankingListwiseEvaluator", "policy metrics @ reagent/evaluation/ranking_policy_gradient_evaluator.py:RankingPolicyGradientEvaluator", "slate reward models @ reagent/models/seq2slate_reward.py:Seq2SlateGRURewardNet"])
prop("D33", "Stored transitions and episodes reach trainers as the batches they describe",
     "Each training batch made from sampled transitions or a finished episode holds, row by row, that sample's own states, actions (one-hot or scaled to the training range), rewards, masks, probabilities and successors, with no next action after a terminal step and everything allowed where no mask was stored. "
     "Episodes of any length, one step included, keep one row per step. "
     "Actions put out by a policy reach the environment in its own range, and every attribute of an observation with documents is stored and encoded under its own name.",
     "inputs configurations", "all contents and terminal flags of up to three samples, steps, actions and documents, for every kind of training batch",
     "Tests compare two of the preprocessors on one recorded run and never build a one-step episode.",
     "reagent/gym/preprocessors/trainer_preprocessor.py reagent/gym/preprocessors/replay_buffer_inserters.py reagent/gym/preprocessors/default_preprocessors.py reagent/gym/types.py reagent/gym/envs/env_wrapper.py",
     ["batches @ reagent/gym/preprocessors/trainer_preprocessor.py:make_trainer_preprocessor", "episodes @ reagent/gym/preprocessors/trainer_preprocessor.py:PolicyGradientInputMaker", "insertion @ reagent/gym/preprocessors/replay_buffer_inserters.py:RecSimReplayBufferInserter", "actions sent @ reagent/gym/envs/env_wrapper.py:EnvWrapper"])
prop("D34", "Episodes are run, recorded and trained on step by step",
     "Running an agent records each step once, in order, with the observation and possible actions the agent saw, its action and log-probability, and the reward that followed, and ends at a terminal step or the step limit. "
     "Evaluation returns each episode's discounted reward per discount however the work is spread; training batches are drawn at every configured number of steps, only after the step was stored and once enough are stored. "
     "Filling a buffer stops at exactly the size asked for.",
     "inputs histories", "all rewards, log-probabilities and episode ends of up to three episodes of up to four steps; listed limits, frequencies and batch sizes",
     "Tests run whole environments with random policies and check average rewards.",
     "reagent/gym/runners/gymrunner.py reagent/gym/datasets/replay_buffer_dataset.py reagent/gym/agents/agent.py reagent/gym/agents/post_step.py reagent/gym/agents/post_episode.py reagent/gym/utils.py reagent/core/multiprocess_utils.py",
     ["episodes @ reagent/gym/runners/gymrunner.py:run_episode", "evaluation @ reagent/gym/runners/gymrunner.py:evaluate_for_n_episodes", "training while running @ reagent/gym/datasets/replay_buffer_dataset.py:ReplayBufferDataset", "filling @ reagent/gym/utils.py:fill_replay_buffer"])
prop("D35", "Published models answer for raw features as the trained network would",
     "A serving module preprocesses each raw feature as declared (missing ones included), maps listed ids to their table positions, asks a copy of the network in evaluation mode and returns its answer with the right names, counted from zero or scaled back to the environment's range. "
     "Planning modules return the value of the best plan per first action, diverse ranking adds the item with the largest determinant each time, and embeddings of lists are summed example by example. "
     "Policies built on a published model draw as its parameters say among possible actions.",
     "inputs configurations", "all raw features, presences, list ids and network answers; up to two examples, three actions or candidates, plans of two (three thorough) steps; TorchScript compilation is assumed to preserve meaning",
     "Tests check example outputs of some wrappers on default networks.",
     "reagent/prediction/predictor_wrapper.py reagent/prediction/ranking/predictor_wrapper.py reagent/preprocessing/sparse_preprocessor.py reagent/models/embedding_bag_concat.py reagent/net_builder/continuous_actor_net_builder.py reagent/net_builder/discrete_dqn_net_builder.py reagent/net_builder/quantile_dqn_net_builder.py reagent/gym/policies/predictor_policies.py reagent/types.py",
     ["serving modules @ reagent/prediction/predictor_wrapper.py:DiscreteDqnWithPreprocessor", "diverse ranking @ reagent/prediction/ranking/predictor_wrapper.py:DeterminantalPointProcessPredictorWrapper", "lists @ reagent/preprocessing/sparse_preprocessor.py:SparsePreprocessor", "publishing @ reagent/net_builder/continuous_actor_net_builder.py:ContinuousActorNetBuilder", "policies @ reagent/gym/policies/predictor_policies.py:create_predictor_policy_from_model"])

prop("D36", "Training statistics cover every reported value once, under its own name",
     "Values reported during training are aggregated exactly once, in order, in groups of the configured interval that no epoch end crosses; means, spreads, counts, shares and recent windows are those of the group's values, action by action. "
     "Each reporter accepts what its trainer reports, and plots it under its own tag at the current step on the innermost writer (nowhere without one). "
     "Absent values are skipped, unknown names, shapes and unequal epochs refused, and training ends exactly at the epoch asked for.",
     "inputs histories", "all reported values, intervals up to four, an epoch ending after any batch, advancing or not between calls; three batches, two or three actions, every trainer with its own reporter",
     "Tests check one mean, one count and a few calls of the writer context; reporters are never run with trainers.",
     "reagent/core/aggregators.py reagent/core/observers.py reagent/core/tracker.py reagent/core/report_utils.py reagent/tensorboardX.py reagent/training/loss_reporter.py reagent/training/reagent_lightning_module.py reagent/training/dqn_trainer.py reagent/workflow/reporters/reporter_base.py reagent/workflow/reporters/discrete_dqn_reporter.py reagent/workflow/reporters/discrete_crr_reporter.py reagent/workflow/reporters/sac_reporter.py reagent/workflow/reporters/td3_reporter.py",
     ["aggregation @ reagent/core/observers.py:IntervalAggregatingObserver", "aggregators @ reagent/core/aggregators.py:FunctionsByActionAggregator", "reporters @ reagent/workflow/reporters/reporter_base.py:ReporterBase", "writer context @ reagent/tensorboardX.py:SummaryWriterContext", "loss report @ reagent/training/loss_reporter.py:LossReporter"])

prop("D37", "Batches keep every example's features, actions and masks together",
     "Moving, slicing, tiling and rebuilding a batch acts on every part it has and drops none: its features, lists with and without scores, candidates, actions, masks and weights; absent parts stay absent. "
     "The documents shown are exactly those the action names, in its order, and for ranking data every derived input (shifted sequences, looked-up candidates, masks, optimal order) belongs to its own list and never looks ahead. "
     "A batch built from a dictionary and the one a trainer receives hold the same values.",
     "inputs configurations", "all features, presences, actions, rewards and masks of up to two examples; up to three candidates, slates of up to three, features of up to two columns; with and without each optional part",
     "Tests build a few batches from constants and compare two of the derived fields.",
     "reagent/types.py reagent/torch_utils.py reagent/base_dataclass.py reagent/model_utils/seq2slate_utils.py reagent/training/reagent_lightning_module.py",
     ["feature containers @ reagent/types.py:FeatureData", "ranking inputs @ reagent/types.py:PreprocessedRankingInput", "everywhere applied @ reagent/types.py:TensorDataClass", "row-wise lookup @ reagent/torch_utils.py:gather", "never ahead @ reagent/model_utils/seq2slate_utils.py:subsequent_mask"])

prop("D38", "Planning with world models picks the plan its simulations value most",
     "A plan is worth the mean, over its simulated trajectories, of the discounted rewards up to and including a predicted end; each trajectory stays with one world model and continues from the state it drew. "
     "The cross-entropy search draws candidates around its plan within the action bounds, moves plan and spread towards the best ones, stops when the spread is small enough or the iterations are used up, and answers the plan's first action in the range agents use. "
     "With discrete actions the first action with the best mean return among the plans trying it wins.",
     "inputs configurations", "all rewards, states, draws and discounts, update rates and stopping thresholds; up to three candidates (eleven for single-step plans), two trajectories, four steps, two world models, two iterations",
     "Tests never run the planner.",
     "reagent/models/cem_planner.py reagent/training/cem_trainer.py reagent/workflow/model_managers/model_based/cross_entropy_method.py",
     ["simulated returns @ reagent/models/cem_planner.py:CEMPlannerNetwork", "policy @ reagent/workflow/model_managers/model_based/cross_entropy_method.py:CEMPolicy", "training @ reagent/training/cem_trainer.py:CEMTrainer"])
prop("D39", "Bandit, slate, ranking and control environments behave as they describe",
     "Rewards, next states, legal actions and episode ends follow the stated rules: arms pay what their value drops by and illegal ones end the game, visitors walk a slate by tap and abandon chances, rankings earn their rank correlation with the hidden one, linear dynamics and quadratic costs use the clipped action, and only the allowed action pays. "
     "Observations become features row by row (the list of legal arms of each row its own, empty ones included), every document carries its value for the user, and different places look different. "
     "A configured seed makes episodes repeat.",
     "inputs histories", "all values, rolls, features, weights and actions; two pulls, three documents, up to three arms per preprocessed row, two steps",
     "Tests run agents on some of the environments and look at average rewards.",
     "reagent/gym/envs/changing_arms.py reagent/gym/envs/toy_vm.py reagent/gym/envs/oracle_pvm.py reagent/gym/envs/recsim.py reagent/gym/envs/gym.py reagent/gym/envs/env_wrapper.py reagent/gym/envs/dynamics/linear_dynamics.py reagent/gym/envs/functionality/possible_actions_mask_tester.py reagent/gym/envs/wrappers/recsim.py reagent/gym/envs/wrappers/simple_minigrid.py",
     ["arms @ reagent/gym/envs/changing_arms.py:ChangingArmsEnv", "slate walk @ reagent/gym/envs/toy_vm.py:simulate_reward", "ranking @ reagent/gym/envs/oracle_pvm.py:OraclePVM", "dynamics @ reagent/gym/envs/dynamics/linear_dynamics.py:LinDynaEnv", "values @ reagent/gym/envs/wrappers/recsim.py:ValueWrapper"])
prop("D40", "Partially observable environments reward histories and show only what they say",
     "String games pay by the characters revealed so far, survive with the stated chances and show only the last character. "
     "In the maze game the agent and the ghosts move one free cell at a time, near ghosts chase or (under power) flee, food, power and captures change score, maze and end of the game as stated, observations name exactly the ghosts in sight, walls, noises and smells, and a new game starts over. "
     "Embedded observations are the memory of the last steps of this episode followed by the raw observation, computed without training the memory.",
     "inputs histories", "all sequences of five characters and rolls; all places, moves and powers in three mazes with one or two ghosts; all observations and memories of three steps",
     "Tests only run random agents through the environments.",
     "reagent/gym/envs/pomdp/string_game.py reagent/gym/envs/pomdp/string_game_v1.py reagent/gym/envs/pomdp/pocman.py reagent/gym/envs/pomdp/state_embed_env.py",
     ["string game @ reagent/gym/envs/pomdp/string_game.py:StringGameEnv", "stochastic string game @ reagent/gym/envs/pomdp/string_game_v1.py:StringGameEnvV1", "maze @ reagent/gym/envs/pomdp/pocman.py:PocManEnv", "embedding @ reagent/gym/envs/pomdp/state_embed_env.py:StateEmbedEnvironment"])
prop("D41", "Offline tables become the training rows they describe",
     "A queried table gives one row per logged step: dense features, next features and metrics in one order over all names seen anywhere with missing values marked, actions as places (an unknown or missing next action ends the episode), and legal actions as ones and zeros. "
     "The reward is the logged one, the discounted sum of the steps ahead, or the custom expression, and an episode is sampled whole, exactly when its hash lies in the range asked for. "
     "Normalization is learned from about the number of values asked for per listed feature, and rows are only ever written to a new table.",
     "inputs", "all values, missing marks, hashes, ranges and rewards; two or three rows, up to three later steps",
     "Tests of the queries need a Spark installation and compare one fixed table.",
     "reagent/workflow/data_fetcher.py reagent/workflow/identify_types_flow.py reagent/workflow/spark_utils.py",
     ["rows @ reagent/workflow/data_fetcher.py:query_data", "sampling @ reagent/workflow/data_fetcher.py:hash_mdp_id_and_subsample", "normalization @ reagent/workflow/identify_types_flow.py:identify_normalization_parameters"])
prop("D42", "Training runs use, save and publish exactly the data and settings asked for",
     "A training run reads the share of the table configured for it, never shares rows with its evaluation, prepares data once, reads every row once per epoch in batches of the size asked for, and passes on every option, the epochs and the warm start; contradictory inputs are refused before training. "
     "Every served module is saved to a file of its own, a saved trainer can be resumed, results are validated before they are published, and the last published model of a configuration and module is the one returned. "
     "An evaluation passes exactly when the mean reward reaches the bar, and a run from the command line uses the values of its file.",
     "inputs histories", "all sample sizes, rewards and discounts; every way of giving data, up to three modules and three publications",
     "Tests of whole training runs need Spark and check only that they finish.",
     "reagent/workflow/training.py reagent/workflow/utils.py reagent/workflow/data/manual_data_module.py reagent/workflow/model_managers/model_manager.py reagent/workflow/model_managers/discrete_dqn_base.py reagent/workflow/model_managers/actor_critic_base.py reagent/publishers/file_system_publisher.py reagent/workflow/gym_batch_rl.py reagent/workflow/cli.py",
     ["run @ reagent/workflow/training.py:query_and_train", "data @ reagent/workflow/data/manual_data_module.py:ManualDataModule", "saving @ reagent/workflow/model_managers/model_manager.py:ModelManager", "publishing @ reagent/publishers/file_system_publisher.py:FileSystemPublisher"])
prop("D43", "Configured agents are built, served and acted by as their configuration says",
     "Every setting of a configured agent reaches its trainer, and its networks have the inputs and outputs asked for, are different from one another, and exist exactly when configured (second critics, values, evaluation networks with a value per action and metric); targets start as copies. "
     "What is served after training is the trained network on preprocessed features under its action names, leaving the network untouched, and the agent's policies act by the networks as they are now. "
     "Planners get separately trained world models and each action's own bounds.",
     "inputs", "all settings in (0,1), all network functions and states; three actions, one state, eight kinds of agents, planners with two world models",
     "Tests train agents with default settings and check that scores improve.",
     "reagent/workflow/model_managers/discrete/discrete_dqn.py reagent/workflow/model_managers/discrete/discrete_qrdqn.py reagent/workflow/model_managers/discrete/discrete_c51dqn.py reagent/workflow/model_managers/discrete/discrete_crr.py reagent/workflow/model_managers/parametric/parametric_dqn.py reagent/workflow/model_managers/actor_critic/sac.py reagent/workflow/model_managers/actor_critic/td3.py reagent/workflow/model_managers/ranking/slate_q.py reagent/workflow/model_managers/model_based/cross_entropy_method.py reagent/workflow/model_managers/model_based/world_model.py",
     ["discrete agents @ reagent/workflow/model_managers/discrete_dqn_base.py:DiscreteDQNBase", "actor critics @ reagent/workflow/model_managers/actor_critic_base.py:ActorCriticBase", "planners @ reagent/workflow/model_managers/model_based/cross_entropy_method.py:CrossEntropyMethod", "policies @ reagent/gym/policies/predictor_policies.py:create_predictor_policy_from_model"])

prop("D44", "Network builders build the network their settings describe",
     "The network a builder makes from its settings has the layers, widths, activations, batch and layer normalisation, dropout, output squashing and exploration noise asked for, takes as many inputs as the normalized features have columns, and answers one value (or vector) per action. "
     "Sparse features are embedded beside the dense ones, sequence models get every size asked for, and candidate scorers treat candidates one by one. "
     "Networks built twice share nothing, building leaves the settings alone, and settings whose sizes and activations do not match are refused.",
     "inputs configurations", "all weights, running statistics, dropped values and states; up to two hidden layers, three inputs kinds, every builder",
     "Tests build networks with default settings and check types and shapes.",
     "reagent/net_builder/discrete_dqn/fully_connected.py reagent/net_builder/discrete_dqn/dueling.py reagent/net_builder/discrete_dqn/fully_connected_with_embedding.py reagent/net_builder/quantile_dqn/quantile.py reagent/net_builder/quantile_dqn/dueling_quantile.py reagent/net_builder/categorical_dqn/categorical.py reagent/net_builder/parametric_dqn/fully_connected.py reagent/net_builder/discrete_actor/fully_connected.py reagent/net_builder/continuous_actor/fully_connected.py reagent/net_builder/continuous_actor/gaussian_fully_connected.py reagent/net_builder/continuous_actor/dirichlet_fully_connected.py reagent/net_builder/value/fully_connected.py reagent/models/fully_connected_network.py reagent/models/mlp_scorer.py",
     ["value builders @ reagent/net_builder/discrete_dqn/fully_connected.py:FullyConnected", "actor builders @ reagent/net_builder/continuous_actor/fully_connected.py:FullyConnected", "layers @ reagent/models/fully_connected_network.py:FullyConnectedNetwork", "scorer @ reagent/models/mlp_scorer.py:MLPScorer"])

prop("D45", "Replay buffers keep lists of ids, checkpoints, and what they export, whole",
     "A sampled transition comes with exactly the id lists and scored lists that were added with it, and those of the state it leads to; what does not fit the first transition is refused and nothing of it is kept. "
     "A buffer restored from a checkpoint is the one that was saved: same contents, same transitions to sample, same priorities, and it goes on alike; the last checkpoints stay loadable and an incomplete one is refused and changes nothing. "
     "An exported dataset has every transition that can be sampled exactly once, with its episode, features, action, probability and possible actions.",
     "histories inputs crash points", "all ids, scores, rewards and terminal flags; up to four transitions, capacities up to five, stacks of two, six checkpoints",
     "Tests save and load one hand-made buffer and never sample from a restored one.",
     "reagent/replay_memory/circular_replay_buffer.py reagent/replay_memory/prioritized_replay_buffer.py reagent/replay_memory/utils.py",
     ["lists @ reagent/replay_memory/circular_replay_buffer.py:IDListMetadata", "checkpoints @ reagent/replay_memory/circular_replay_buffer.py:ReplayBuffer", "export @ reagent/replay_memory/utils.py:replay_buffer_to_pre_timeline_df"])

prop("D46", "Evaluation runs estimate every experiment once and report it faithfully",
     "Every estimator meets every data set it is listed with exactly once, however many workers share the experiments; an estimator without an answer, an invalid estimate or an unreadable task loses nothing else, and no files stay behind. "
     "Reports are the averages, errors and variances of the valid estimates; logs and boards show every method's own estimates and errors per metric, undefined ones as zero, and incomplete sets are refused. "
     "Splitting data puts every example, whole, into exactly one part.",
     "inputs histories faults", "all rewards, weights and estimates, any estimator silent, failing or invalid at any point; up to four experiments, two estimators, three workers, four examples",
     "Tests run single estimators in one process and never read the reports.",
     "reagent/ope/estimators/estimator.py reagent/evaluation/cpe.py reagent/evaluation/doubly_robust_estimator.py",
     ["runs @ reagent/ope/estimators/estimator.py:Evaluator", "workers @ reagent/ope/estimators/estimator.py:run_evaluation", "reports @ reagent/ope/estimators/estimator.py:EstimatorResults", "logs @ reagent/evaluation/cpe.py:CpeEstimateSet", "split @ reagent/evaluation/doubly_robust_estimator.py:DoublyRobustEstimator._split_data"])

prop("D47", "Evolution, step-by-step and imitation trainers follow their update rules",
     "Evolution pools surround the parent with fresh noise that every machine draws alike, and the parent follows its children in proportion to how much better than average they did; machines average their rewards over their own group. "
     "Step-by-step trainers average gradients over the minibatches of a step, step and follow with their targets only then, and train a reward and a value head per metric towards the logged values and the policy's expected next ones. "
     "Imitators learn the logged action by cross entropy and answer how often they were right.",
     "inputs histories", "all rewards, noise, network outputs, gradients, masks and rates; up to three individuals, three machines, three actions, six minibatches",
     "These trainers have no tests that run here.",
     "reagent/training/gradient_free/evolution_pool.py reagent/training/gradient_free/es_worker.py reagent/training/rl_trainer_pytorch.py reagent/training/imitator_training.py reagent/training/trainer.py",
     ["evolution @ reagent/training/gradient_free/evolution_pool.py:EvolutionPool", "workers @ reagent/training/gradient_free/es_worker.py:EsWorker", "steps @ reagent/training/rl_trainer_pytorch.py:RLTrainer", "imitation @ reagent/training/imitator_training.py:ImitatorTrainer"])
