ORACLE = {
"D01": "The real training-step generator runs on a symbolic batch with the networks as uninterpreted functions; the oracle is the Bellman target written out per row with exact case splits for masks, terminal flags and ties, and the gradient of the emitted loss is compared with the gradient of the stated one.",
"D02": "The real CPE mixin computes both head losses; the oracle is reward regression and a discounted soft expectation per metric. The masked softmax is compared with its definition for arbitrary masks.",
"D03": "The optimizer's step runs on symbolic parameters and a symbolic rate; the pairing is read off the parameter lists each real trainer hands to it, and one symbolic batch is driven through each trainer's optimizers.",
"D04": "As D01, with candidate actions tiled per state.",
"D05": "The projection is compared with the piecewise-linear split of every atom's shifted value, case by case on where it lands; mass conservation is a separate obligation.",
"D06": "All pairs of quantiles are expanded; Huber and asymmetric weights are case splits.",
"D07": "Critic, actor, value and temperature losses as yielded; log and clamp identities use the axioms, gradients are taken by real autograd over symbolic values.",
"D08": "As D07 with arbitrary noise draws; the delay is decided over consecutive batches.",
"D09": "As D08 for discrete actions.",
"D10": "Slates as symbolic index lists; oracle per item and slate.",
"D11": "Returns are closed-form sums; one update with unit-step descent equals the stated gradient.",
"D12": "Draws are arbitrary choices of the solver; the parameters handed to the random source must be the stated distribution, and every reported log-probability is compared with it.",
"D13": "Log-densities are written out from the normal density and the squashing correction; quotients of softplus and tanh by axioms.",
"D14": "Layers are arbitrary functions; the composition order is visible in the uninterpreted terms.",
"D15": "All orders of perturbed scores are explored as paths; the oracle is the product of choice probabilities.",
"D16": "Sequences of assignments and a drawn position are symbolic; each leaf's interval is stated as linear arithmetic. Histories of the prioritized buffer come from symbolic additions and overwrites.",
"D17": "The history (terminal flags, wrap-around) is symbolic; validity and sample contents are restated from the list of all additions.",
"D18": "One symbolic raw value and presence per feature and type; oracle per type.",
"D19": "Sample statistics are restated in exact arithmetic; thresholds are case splits; rescaling followed by its inverse is the identity obligation.",
"D20": "Every transform runs on symbolic columns; oracle is a dictionary-level restatement.",
"D21": "Recursions are restated forward over listed episodes; the blended weights' quadratic programme is replaced by a recording stand-in.",
"D22": "Pages are built by the real code for symbolic batches; fields are compared row by row.",
"D23": "Estimators are stand-ins returning arbitrary numbers, so that each reported place must hold its own.",
"D24": "Histories of sets, replacements and additions on symbolic values.",
"D25": "Formulae restated per sample; models are arbitrary per training set.",
"D26": "Trajectories of listed lengths with symbolic rewards and probabilities; recursions restated as sums over prefixes.",
"D27": "Enumerations of slates are restated with itertools, weights symbolic.",
"D28": "The Bellman equation with the real iteration's result is the obligation; Monte Carlo returns are restated per visit.",
"D29": "The transformer is replaced by an arbitrary (or fixed known) function of exactly the entries its mask admits; decoding paths are explored.",
"D30": "Losses and the gradients handed to the optimizers, per batch of a short sequence.",
"D31": "Mixture likelihoods are restated; all action sequences are enumerated for the planning value.",
"D32": "Orders of model scores are explored as paths; metrics restated by candidate.",
"D33": "Row-by-row restatement of each maker of training batches.",
"D34": "Environments and agents are scripted stand-ins with symbolic rewards and ends; the transcript is the oracle.",
"D35": "The wrapped networks are arbitrary functions, the preprocessors are the real ones (their own property is D18).",
"D36": "Recording writers and trackers; group contents restated from the calls.",
"D37": "Containers are flattened to (path, tensor) lists before and after.",
"D38": "World models answer every call with fresh arbitrary numbers; the oracle walks the recorded calls and draws, sums the returns and redoes the search step by step.",
"D39": "Each environment's rules are restated for one to three steps from arbitrary values; random sources are replaced by arbitrary answers.",
"D40": "One step of the maze from every place, move and power is compared with a restatement on lists; string games over every history; the memory network is an arbitrary function that records what it is shown.",
"D41": "The real query functions run over a small interpreter of the table operations they use (checks/spark.py: lazy columns, maps, arrays, aggregates, sampling by hash), whose cells are symbolic; the rows written are compared with a restatement on lists.",
"D42": "The real workflows run over recording managers, readers, trainers and an in-memory disk; sample sizes, rewards and discounts are symbolic, ways of giving data are enumerated by the engine as branches.",
"D43": "The real managers build the real trainers around arbitrary network functions; constructor arguments are recorded by name, serving code runs uncompiled, and the trained network is an uninterpreted function different from the one built.",
"D44": "The real builders run; every weight and running statistic of the network built is made symbolic and its answers are compared with the layers applied one by one (dropped values are the solver's choice); sizes of sequence models are symbolic and recorded at construction.",
"D45": "The real buffers are fed symbolic ids, scores and ends of episodes; samples are compared with the stream kept as a plain list. Checkpoints are written to and read from a scratch directory by the real code (contents concrete, histories and versions the solver's choice).",
"D46": "The real evaluator runs over stand-in estimators whose every answer (a symbolic number, none, a failure) is the solver's choice; worker processes run in place on the tasks the real code writes to its files. Reports, log lines and board entries are compared with averages and estimates kept aside.",
"D47": "The real update rules run over symbolic parameters, noise, rewards and network outputs (real autograd); recording optimizers and a symbolic all-reduce show the gradients and averages, which are compared with the written-out formulas.",
}
