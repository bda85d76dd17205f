"""Writes properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []


def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
  assert len(title) <= 80, title
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
                   mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=state or [], observe_at=observe or [],
                   hook_needed=None)))


S = 'discs/samplers/'
M = 'discs/models/'
ALLS = [S + f for f in ('randomwalk.py', 'gibbs.py', 'blockgibbs.py', 'hammingball.py', 'gwg.py',
                        'path_auxiliary.py', 'dmala.py', 'dlmc.py', 'locallybalanced.py')]
NOTEST = ('The repository tests run one or two fixed configurations per component with fixed keys and '
          'check shapes or single values; most do not even pass here. ')

add('C01', 'Every sampler step stays inside the sample space',
    'For every sampler, configuration, target energy (flat to steep) and history of steps, one step maps a '
    'batch of valid samples to a batch of the same shape whose entries are integers in [0, num_categories). The '
    'reported acceptance value is a number in [0, 1] and the sampler state stays finite, so a chain can always be continued.',
    ['inputs', 'histories', 'configurations'],
    'all samplers x options x shapes x batch sizes x number of categories x energy scales x step histories',
    NOTEST + 'Leaving the space or producing NaN needs particular energies and histories.',
    ALLS, [('modular arithmetic / set updates on category indices', S + '*'), ('mh_step select', 'discs/common/math_util.py')])
add('C02', 'Random-walk and Gibbs-type samplers leave the target invariant',
    'If a chain is distributed as exp(log-likelihood)/Z, it still is after one step of the random-walk, Gibbs, block-Gibbs '
    'or Hamming-ball sampler, whatever the sample shape, number of categories, block size, batch size and adapted state '
    'reached by earlier steps. The same holds for the specialised RBM block-Gibbs sampler on any binary RBM.',
    ['inputs', 'histories', 'configurations'],
    'all target energies on small spaces, all options, all sampler states reachable by running the sampler',
    NOTEST + 'Invariance is a statement about the law of the output, invisible to any single fixed-key run.',
    [S + 'randomwalk.py', S + 'gibbs.py', S + 'blockgibbs.py', S + 'hammingball.py', M + 'rbm.py'],
    [('symmetric proposal + Metropolis test', S + 'randomwalk.py'), ('exact conditional resampling', S + 'gibbs.py, blockgibbs.py'),
     ('auxiliary ball centre + exact resampling in the ball', S + 'hammingball.py')])
add('C03', 'Gradient-informed path samplers (GWG, PAS) leave the target invariant',
    'If a chain is distributed as exp(log-likelihood)/Z, it still is after one step of the Gibbs-with-gradients or '
    'path-auxiliary sampler, for binary and categorical samples, every balancing function, any number of flips, adaptive '
    'or not, any batch size and any sampler state reached by earlier steps. This holds even when the gradient is only a '
    'rough approximation of the true energy change.',
    ['inputs', 'histories', 'configurations'],
    'all target energies on small spaces, all options, all reachable sampler states',
    NOTEST + 'An error in one proposal-probability term changes only the long-run law.',
    [S + 'gwg.py', S + 'path_auxiliary.py', S + 'locallybalanced.py', 'discs/common/math_util.py'],
    [('Metropolis-Hastings correction with forward and reverse path likelihoods', S + 'gwg.py, path_auxiliary.py')])
add('C04', 'Whole-vector gradient samplers (DMALA, DLMC) leave the target invariant',
    'If a chain is distributed as exp(log-likelihood)/Z, it still is after one step of DMALA or DLMC, for binary and '
    'categorical samples, every balancing function and solver, any batch size, with fixed or adapted step size, once the '
    'step size has been initialised by a first step. In the optimisation mode that recomputes the step size from the current '
    'state, it holds for a single chain.',
    ['inputs', 'histories', 'configurations'],
    'all target energies on small spaces, all options, all reachable sampler states',
    NOTEST + 'An error in one proposal-probability term changes only the long-run law.',
    [S + 'dmala.py', S + 'dlmc.py', S + 'locallybalanced.py', 'discs/common/math_util.py'],
    [('Metropolis-Hastings correction with factorised forward and reverse likelihoods', S + 'dmala.py, dlmc.py')])
add('C05', 'Chains and problem instances processed together do not influence each other',
    'Within one step after initialisation, what happens to a chain depends on its own current sample, its random draws and '
    'the sampler state, never on the samples of the other chains in the batch. The chains of a batch make their random choices independently of each other (only the Hamming-ball radius is drawn once per step for the whole batch). Running several model instances at once '
    '(vectorised over instances, as the combinatorial experiments do) gives each instance the result it would get alone with the same key.',
    ['inputs', 'configurations', 'histories'],
    'all samplers (step-size re-estimation of the optimisation mode excepted), batch contents, instance sets',
    NOTEST + 'Cross-talk needs batches >1 with particular contents; tests look at shapes only.',
    ALLS, [('per-row indexing of proposals and likelihoods', S + '*'), ('jax.vmap over instances', 'discs/experiment/sampling.py')])
add('C06', 'Step-size adaptation is bounded and steers towards the target acceptance',
    'For the adaptive samplers the adapted step size (number of flips, or expected number of flips) never leaves '
    '[1, number of coordinates] for random-walk, GWG and PAS, and for DMALA and DLMC stays finite and never asks for less than one expected flip. '
    'A step that accepts more than the target acceptance rate never decreases it and one that accepts less never increases it (bounds aside), '
    'and non-adaptive samplers keep a constant step size.',
    ['histories', 'inputs', 'configurations'],
    'all step histories over flat to very steep energies and all target acceptance rates',
    NOTEST + 'Runaway or NaN step sizes appear only after particular acceptance histories.',
    [S + f for f in ('randomwalk.py', 'gwg.py', 'path_auxiliary.py', 'dmala.py', 'dlmc.py')],
    [('clipped Robbins-Monro style update', S + '*.select_sample / update_sampler_state')],
    state=[dict(name='radius', meaning='number of flips', where='sampler state'),
           dict(name='log_tau, log_z', meaning='log step size and log total rate', where='sampler state')])
add('C07', 'Coordinates masked out of a sampling step never change',
    'When a step is given a mask, the samplers that support masks (binary GWG and path-auxiliary, the ones used on padded graphs) '
    'change only coordinates the mask allows, for every mask leaving at least as many coordinates as are flipped, every energy and every history. '
    'The chain restricted to the allowed coordinates still leaves the conditional target distribution invariant.',
    ['inputs', 'histories', 'configurations'],
    'all masks, energies, histories, flip counts',
    'No repository test passes a mask.', [S + 'gwg.py', S + 'path_auxiliary.py', 'discs/experiment/sampling.py'],
    [('masked proposal logits', S + 'gwg.py get_dist_at, path_auxiliary.py get_local_dist')])
add('C08', 'Each step moves exactly as configured and no coordinate is left out',
    'Gibbs, block-Gibbs and Hamming-ball steps change only the coordinates of the current block (at most two of them for Hamming ball) and successive steps '
    'sweep through all coordinates cyclically; GWG changes at most, and PAS exactly zero or, the configured number of distinct coordinates. '
    'From every state, every neighbouring value of every coordinate is eventually proposed and reached (no frozen coordinate or unreachable category).',
    ['histories', 'inputs', 'configurations'],
    'all samplers, shapes, block sizes (dividing the dimension or not), flip counts, histories',
    NOTEST + 'A skipped coordinate or category only shows over a whole sweep.',
    ALLS, [('cyclic block index', S + 'gibbs.py, blockgibbs.py, hammingball.py'), ('top-k / multinomial index selection', 'discs/common/math_util.py')])
add('C09', 'Reported energy-evaluation counts equal the evaluations really made',
    'After any number of steps the sampler state reports as number of energy evaluations exactly the per-chain number of model evaluations '
    'performed (a value-and-gradient call counting as two, one pass that yields all exact log-ratios of a neighbourhood as one), for every sampler and option, and counts the steps taken for the locally balanced and Gibbs-type samplers. '
    'The reported acceptance of a step equals the mean acceptance probability of the moves it proposed.',
    ['histories', 'configurations'],
    'all samplers, options and step counts',
    NOTEST + 'Efficiency results (ESS per energy evaluation) silently depend on it.',
    ALLS, [('num_ll_calls increments', S + '*')],
    state=[dict(name='num_ll_calls', meaning='energy evaluations so far', where='sampler state')])
add('C10', 'Sampling primitives follow their stated laws',
    'Every balancing function satisfies g(t) = t g(1/t) with its log-scale version agreeing for all t > 0; log(1-exp(-|x|)), binomial coefficients and products are accurate over their range. '
    'Multinomial draws with and without replacement have exactly the stated distribution, draw the requested number, never repeat without replacement, and '
    'report the log-likelihood of the drawn (ordered) indices; a Metropolis test accepts with probability min(1, ratio) and returns the matching sample for every chain.',
    ['inputs', 'configurations'],
    'all probability vectors (including very unbalanced ones), sample counts, batch shapes, log ratios',
    'math_test samples two fixed vectors.', ['discs/common/math_util.py', S + 'locallybalanced.py'],
    [('Gumbel top-k, renormalised likelihoods', 'discs/common/math_util.py')])
add('C11', 'Classical model log-likelihoods equal their definition',
    'Bernoulli, categorical, Ising and Potts models return, for every parameter set and sample batch, the log-likelihood of their documented '
    'factorised or nearest-neighbour lattice energy, row by row. The value does not depend on whether the sample is given as integers, floats or one-hot vectors, nor on the other rows of the batch.',
    ['inputs', 'configurations'],
    'all shapes, categories, parameters, samples and encodings',
    NOTEST + 'Existing model tests use one 2x2 or 3x3 case.',
    [M + f for f in ('bernoulli.py', 'categorical.py', 'ising.py', 'potts.py')],
    [('forward', M + '*')])
add('C12', 'Factorial HMM posterior and generator agree with the model definition',
    'The FHMM log-likelihood of a hidden configuration equals, up to a constant, log P(initial) + log P(transitions) + log P(observations) for binary and categorical chains of every '
    'length and width, where a hidden variable keeps its value with probability beta and otherwise moves uniformly to another category, and the initial law is the model\'s alpha. '
    'Generated parameters have the documented shapes and initial-state probabilities that sum to one.',
    ['inputs', 'configurations'],
    'all (length, width, categories, alpha, beta, sigma), parameters and hidden configurations',
    'There is no FHMM test.', [M + 'fhmm.py'], [('forward, transition matrix', M + 'fhmm.py')])
add('C13', 'Deep EBM energies marginalise and temper correctly',
    'The RBM log-likelihood of a visible vector equals the log of the sum over all hidden vectors of the joint weight, for binary and categorical RBMs, and block-Gibbs half steps use the exact conditionals of that joint. '
    'The residual-network EBM adds the data-mean base log-probability to the output of its residual convolutional network, also for pixels that are always or never on, depends on each image alone, and its tempered energy interpolates linearly from the base (0) to the full model (1).',
    ['inputs', 'configurations'],
    'all sizes, parameters, samples and temperatures',
    'There is no RBM or ResNet test.', [M + 'rbm.py', M + 'resnet.py'], [('free energy', M + 'rbm.py __call__'), ('temperature path', M + 'resnet.py forward')])
add('C14', 'Value-and-gradient is consistent with the log-likelihood of every model',
    'For every model, the value returned with the gradient equals the log-likelihood of the same samples, and the gradient has the sample encoding\'s shape and equals the derivative of the log-likelihood with respect to it. '
    'For models linear in each coordinate (Bernoulli, categorical, Ising, Potts, max-cut, MIS), gradient flip scores equal the exact log-likelihood change of every single flip.',
    ['inputs', 'configurations'],
    'all models, parameters, samples',
    NOTEST, [M + f for f in ('bernoulli.py', 'categorical.py', 'ising.py', 'potts.py', 'fhmm.py', 'rbm.py', 'resnet.py', 'comb_ebm.py')],
    [('get_value_and_grad', M + '*')])
add('C15', 'Model initialisation yields valid parameters and starting samples',
    'Every model built from a valid configuration (with or without a stored data mean) creates parameters its own log-likelihood accepts and initial samples of the configured shape with integer values in '
    '[0, num_categories), deterministically from the key and for any number of samples. Normalised-cut starting partitions use every category, EBM starts follow the stored data mean, and lattice parameters have the configured coupling and field.',
    ['inputs', 'configurations'],
    'all model configurations and keys',
    NOTEST, [M + f for f in ('bernoulli.py', 'categorical.py', 'ising.py', 'potts.py', 'fhmm.py', 'rbm.py', 'resnet.py', 'comb_ebm.py', 'normcut.py')],
    [('make_init_params, get_init_samples', M + '*')])
add('C16', 'Combinatorial energies score solutions exactly and never reward infeasibility',
    'For every graph and assignment, the evaluated objective is the cut weight (max-cut), set size minus penalty per violated edge (independent set), set size minus penalty per missing edge (clique) '
    'or minus the cut and balance cost (normalised cut), and the sampled log-likelihood is that objective divided by the temperature. '
    'Padding nodes and edges contribute nothing, and with the shipped penalties the best score over all assignments equals the true optimum of the problem.',
    ['inputs', 'configurations'],
    'all weighted/unweighted graphs, padded sizes, assignments, penalties >= 1, temperatures',
    'There are no tests of the combinatorial models.',
    [M + 'comb_ebm.py', M + 'maxcut.py', M + 'mis.py', M + 'maxclique.py', M + 'normcut.py'],
    [('objective, penalty, evaluate', M + 'comb_ebm.py and subclasses')])
add('C17', 'Neighbourhood log-ratios equal the energy change of each single move',
    'Wherever a model offers the log-ratios of all single-coordinate moves (max-cut, independent set, normalised cut, Bernoulli), every entry equals the difference of log-likelihoods between the moved and the current sample, on padded graphs too (padding nodes are neutral or excluded), '
    'and the returned current value equals the log-likelihood. The move function handed out with the ratios changes exactly the chosen coordinate of each sample. Samplers given these exact ratios instead of gradients still leave the target invariant.',
    ['inputs', 'configurations'],
    'all graphs, paddings, assignments, temperatures',
    'Not exercised by any test.', [M + 'maxcut.py', M + 'mis.py', M + 'normcut.py', M + 'bernoulli.py', S + 'path_auxiliary.py', S + 'locallybalanced.py'],
    [('logratio_in_neighborhood', M + '*')])
add('C18', 'Trained models are restored exactly from their saved files',
    'Loading an RBM or image EBM from a directory holding the saved parameters and configuration gives back exactly those parameters and the saved shape, sizes and data mean, overriding defaults, for every saved model; '
    'a missing directory is reported as an error. The restored model scores samples as the saved parameters define.',
    ['inputs', 'configurations'],
    'all saved parameter sets, sizes, data means',
    'No test loads a model.', [M + 'deep_ebm.py', M + 'rbm.py', M + 'resnet.py'], [('load_params_configs', M + 'deep_ebm.py')])
add('C19', 'Graph loaders deliver every instance exactly once, in order and fully padded',
    'For every dataset layout and batch size, iterating a loader yields batches of exactly the requested size containing each stored instance once, in file order, numbered from 0 with its reference value, '
    'followed only by dummies numbered -1. Sizes announced by the loader bound every instance, all instances share one padded shape, and the mask, where provided, marks exactly the real nodes. Instances shared among processes are neither lost nor repeated.',
    ['inputs', 'configurations'],
    'all instance counts, batch sizes, graph sizes, file splits, dataset kinds',
    'No test touches the loaders.',
    ['discs/graph_loader/common.py', 'discs/graph_loader/maxcut_loader.py', 'discs/graph_loader/mis_loader.py', 'discs/graph_loader/maxclique_loader.py', 'discs/graph_loader/normcut_loader.py', 'discs/graph_loader/graph_gen.py'],
    [('get_iterator batching and dummy padding', 'discs/graph_loader/common.py')])
add('C20', 'Graph encodings and reductions preserve the problem',
    'Converting a graph to arrays and back recovers its edges and weights exactly, with padding marked by the edge mask and both directions present in the bidirectional arrays. '
    'The formula-to-graph reduction yields a graph whose maximum independent set equals the number of clauses exactly when the 3-CNF formula is satisfiable.',
    ['inputs'],
    'all graphs with paddings; all 3-CNF formulas',
    'No test touches them.', ['discs/common/utils.py', 'discs/graph_loader/mis_loader.py'],
    [('graph2edges', 'discs/common/utils.py'), ('cnf2graph', 'discs/graph_loader/mis_loader.py')])
add('C21', 'Random graph generation honours its size, connectivity and weight contract',
    'Every generated random graph is connected, has between the requested minimum and maximum number of nodes labelled 0..n-1, and carries a weight of the requested kind and range on every edge when weights are requested. '
    'The configuration-string parser recovers every key and value, including values containing dashes.',
    ['inputs', 'configurations'],
    'all graph kinds, size ranges, densities, weight kinds, seeds',
    'No test touches them.', ['discs/graph_loader/common.py', 'discs/common/utils.py'], [('gen_connected', 'discs/graph_loader/common.py'), ('parse_cfg_str', 'discs/common/utils.py')])
add('C22', 'Optimisation runs report true, monotone best-so-far results for every instance',
    'For every dataset, batch split, sampler, schedule and logging interval, the saved trajectory has one entry per logging step, is non-decreasing per instance, and its last entry is the reported best ratio, which is the best objective '
    'among the logged samples divided by the reference value. Every step continues from the samples of the step before, with its own random key for every step, instance and device processed together. Saved best samples attain the reported value, results cover every real instance exactly once in order and no dummy, and one or several devices make no difference to these guarantees. The additional acceptance and jump-distance histories, when asked for, hold for each step the averages over all chains and instances processed together.',
    ['inputs', 'configurations', 'histories'],
    'all instance counts vs batch sizes, samplers, schedules, logging intervals, device counts',
    'No test runs an experiment.', ['discs/experiment/sampling.py', 'discs/common/experiment_saver.py', 'discs/evaluators/co_eval.py'],
    [('CO_Experiment._compute_chain', 'discs/experiment/sampling.py'), ('save_co_resuts', 'discs/common/experiment_saver.py')])
add('C23', 'Annealing temperatures follow the configured schedule',
    'At step k of an optimisation run the model is sampled at the temperature its schedule defines: constant; linear from the initial to the final temperature over the chain; or exponential decay by the decay rate over the chain, never below the final temperature. '
    'All instances use the same temperature, it is positive and never increases, and scoring of samples is unaffected by it.',
    ['configurations', 'histories'],
    'all schedules, chain lengths, initial/final temperatures, decay rates, instance counts',
    'No test runs an experiment.', ['discs/experiment/sampling.py'], [('_build_temperature_schedule', 'discs/experiment/sampling.py')])
add('C24', 'Sampling runs feed exactly the post-burn-in chain to the ESS evaluation',
    'A sampling run performs exactly the configured number of steps, discards the configured burn-in fraction, evaluates the remaining samples of every chain in order through their Hamming-type distance to a fixed reference sample, and saves results consistent with them: '
    'ESS, ESS per step, per second and per energy evaluation, acceptance and hop histories of full length, and every stored sample snapshot at the configured interval. Every step continues from the previous one with fresh randomness. Running it again gives the same results.',
    ['configurations', 'histories'],
    'all models x samplers x chain lengths x burn-in ratios x batch sizes x device counts',
    'No test runs an experiment.', ['discs/experiment/sampling.py', 'discs/common/experiment_saver.py', 'discs/evaluators/ess_eval.py'],
    [('Sampling_Experiment._compute_chain', 'discs/experiment/sampling.py')])
add('C25', 'Annealed importance sampling estimates the log-partition ratio correctly',
    'For every EBM with a base distribution, sampler, batch size, number of annealing steps and device count, the saved sequence holds one log-partition estimate per annealing step, in which exp(final estimate) is an unbiased estimate of the ratio of the partition functions of the full model and of the base. '
    'When the network contributes a constant, every estimate equals the exact closed form.',
    ['configurations', 'histories'],
    'all EBM energies, samplers, chain lengths, batch sizes',
    'No test runs an experiment.', ['discs/experiment/sampling.py', M + 'resnet.py', 'discs/common/experiment_saver.py'],
    [('EBM_Experiment._compute_chain', 'discs/experiment/sampling.py')])
add('C26', 'Effective sample size is computed correctly from any chain',
    'For every set of chains the reported ESS is the mean over chains of (length / autocorrelation time) with the autocorrelation sum cut at its first negative term, constant chains counting as one, together with its standard deviation over chains. '
    'It does not depend on the order of chains or on shifting or scaling the values, and the derived metrics are it divided by the measured share (1 - burn-in ratio) of the steps, by the seconds, and by the same share of the energy evaluations.',
    ['inputs', 'configurations'],
    'all chain lengths, chain counts and values',
    'No test evaluates ESS against a reference.', ['discs/evaluators/ess_eval.py'], [('evaluate, get_eval_metrics', 'discs/evaluators/ess_eval.py')])
add('C27', 'Language metrics equal their definitions',
    'For every set of generated sentences and reference corpora, the reported BLEU, self-BLEU and unique n-gram percentages equal their definitions on the lower-cased, token-normalised references, with self-BLEU reported only for more than one sentence and n-gram entries for every order up to the configured maximum. '
    'All metrics are in [0, 1] and independent of the order of reference sentences.',
    ['inputs', 'configurations'],
    'all sentence sets and corpora',
    'No test covers the evaluator.', ['discs/evaluators/lm_eval.py'], [('evaluate', 'discs/evaluators/lm_eval.py')])
add('C28', 'Estimation-error and partition-quality metrics equal their definitions',
    'The Bernoulli evaluation reports the mean and maximum squared error of sample means and unbiased variances against the exact values, over chains and over the last samples combined. '
    'The normalised-cut evaluation reports the exact fraction of cut edges and the exact balance of any partition, and these do not depend on how the groups or nodes are numbered; its report over saved runs shows these values for each run. '
    'The mixing-time graph, whether drawn by the evaluator, by the saver or from saved samples, shows for each sampler one point per full window of samples along its chain, the average mean error of the samples in that window.',
    ['inputs'],
    'all sample arrays, parameters, graphs and partitions',
    'No test covers them.', ['discs/evaluators/bernoulli_eval.py', M + 'bernoulli.py', 'discs/common/normcut_evaluator.py', 'discs/common/experiment_saver.py', 'discs/plot_results/plot_estimation_error.py'],
    [('evaluate', 'discs/evaluators/bernoulli_eval.py, discs/common/normcut_evaluator.py')])
add('C29', 'Infilling datasets partition the corpora and mask exactly the requested words',
    'Creating an infilling dataset writes up to the requested number of sentences from the first corpus and up to twice that in total, all within the length bounds, each with exactly the requested number of interior words masked and with the positions of the mask tokens in the tokenised sentence; restoring the masked words gives back the original sentence. '
    'Every corpus line ends up either in the task or in the remaining reference corpus, exactly once.',
    ['inputs', 'configurations'],
    'all corpora, sentence counts, length bounds, mask counts, seeds',
    'No test covers it.', ['discs/common/utils.py'], [('create_infill_dataset', 'discs/common/utils.py')])
add('C30', 'Text infilling scores by masked pseudo-likelihood and decodes faithfully',
    'The infilling model\'s log-likelihood of a candidate is the sum over infill positions of the language model\'s log-probability of the candidate token there with that position masked and the other candidate tokens in place, for integer and one-hot candidates alike, and its gradient is taken of that value. Starting candidates are drawn from the model\'s predictions with all infill positions masked, or uniformly. '
    'Decoding puts each candidate token at its own position and changes nothing else, and an infilling run returns every resampled sentence and the requested number of most likely ones.',
    ['inputs', 'configurations', 'histories'],
    'all sentences, infill positions, candidates, resample and top-k counts',
    'Needs BERT weights; no test.', [M + 'text_infilling.py', 'discs/experiment/sampling.py'],
    [('single_forward, decode', M + 'text_infilling.py'), ('Text_Infilling_Experiment', 'discs/experiment/sampling.py')])
add('C31', 'Saved results can be read back, grouped and labelled correctly',
    'Every experiment configuration encoded in a result directory name is decoded to the same keys and values (a shape to its first dimension, a graph configuration to its first part without a leading r-), and results written by the saver are read back by the plotting code with the same numbers. '
    'Runs that set the same keys to the same values apart from the sampler options and the swept key are grouped together and all others kept apart, and display names distinguish sampler variants. The optimisation-over-time plots, the acceptance and jump-distance curves, the annealed-importance-sampling plot, the image sheets and the pictures saved with samples show exactly the saved numbers and pixels, one point per saved value, under the right name.',
    ['inputs', 'configurations'],
    'all sweep dictionaries, result values, sets of runs',
    'No test covers it.', ['discs/common/experiment_saver.py', 'discs/plot_results/plot_utils.py', 'discs/plot_results/plot_results.py', 'discs/plot_results/plot_co_through_time.py', 'discs/plot_results/plot_ais.py', 'discs/common/normcut_evaluator.py'],
    [('_save_ess_results, _dump_dict', 'discs/common/experiment_saver.py'), ('get_experiment_config, get_clusters_key_based', 'discs/plot_results/plot_utils.py')])
add('C32', 'The training replay buffer and data pipeline never lose or corrupt samples',
    'Under any sequence of sampling and updates the replay buffer keeps its size and binary values; a sampled batch is made of distinct slots, each row being that slot\'s content or a fresh draw, and an update replaces exactly the sampled slots. '
    'The data pipeline delivers every example once per epoch (up to a dropped remainder), in order when not shuffling, with consistent device batching and shared among processes without overlap.',
    ['histories', 'configurations'],
    'all operation sequences, buffer sizes, batch sizes, reinitialisation rates',
    'No test covers it.', ['discs/learning/replay_buffer.py', 'discs/common/data_loader.py'], [('sample/update', 'discs/learning/replay_buffer.py')])
add('C33', 'Experiment configuration merges in the documented precedence',
    'The configuration of a run consists of the common defaults overridden by experiment, model and sampler settings; for graph problems the graph type\'s settings apply, then the optimisation defaults, then the experiment file, with one model slot per instance batch. '
    'Every shipped sampler, model and sweep configuration resolves to existing components and every swept key is a real option. '
    'Any sampler can also be built outside the pipeline from a configuration holding only the sample shape, the number of categories and the sampler settings, and then behaves as in the pipeline.',
    ['configurations'],
    'all shipped configurations and overrides',
    'No test covers it.', ['discs/experiment/main_sampling.py', 'discs/common/configs.py', 'discs/samplers/configs', 'discs/models/configs', 'discs/experiment/configs'],
    [('get_main_config', 'discs/experiment/main_sampling.py')])

add('C34', 'Training steps follow the configured gradient, schedule and averaging',
    'Each training step applies the configured optimizer (with gradient clipping and weight decay) to the gradient of the mean log-likelihood of the negative samples minus that of the data, averaged over all devices, at the learning rate of the configured schedule (constant; linear warm-up then linear decay to one hundredth; linear warm-up then exponential decay by 0.9 per 20000 steps), and keeps an exponential moving average of the weights with the configured decay. '
    'The loop takes one step per delivered batch up to the configured total, continuing after its starting step, and logs, plots and checkpoints exactly at the configured intervals. '
    'Negative samples are pcd_steps sampler steps, with fresh keys, from the persistent chains (RBM) or from the replay buffer they are written back to (image EBM). The saved parameters and data mean are those of the final step and of the data, and the models load them back.',
    ['inputs', 'configurations', 'histories'],
    'all optimizers, schedules, lengths, intervals, device counts and batches',
    'No test covers training.', ['discs/learning/train.py', 'discs/learning/rbm/main_rbm_training.py', 'discs/learning/binary_ebm/main_binary_training.py', 'discs/common/utils.py', 'discs/common/train_configs.py'],
    [('train_loop, global_update_fn, build_lr_schedule', 'discs/learning/train.py'), ('batch_processing', 'discs/learning/rbm/main_rbm_training.py, discs/learning/binary_ebm/main_binary_training.py')])
add('C35', 'Training data and converted checkpoints reach the model unchanged',
    'The dataset readers deliver every image of the training file exactly once (in any order), upright, in the documented polarity and range, and split off validation images disjoint from the training images; unknown dataset names are rejected. '
    'The mean image is the per-pixel average clipped to [0.01, 0.99]; on-the-fly binarisation turns each pixel on independently with probability equal to its intensity. '
    'A converted torch checkpoint gives, for every image, the energy the checkpoint\'s residual network and data mean define.',
    ['inputs', 'configurations'],
    'all file contents, image sizes, checkpoints and images',
    'No test covers it.', ['discs/learning/raw_torch_dataset.py', 'discs/learning/train.py', 'discs/learning/rbm/main_rbm_training.py', 'discs/learning/binary_ebm/pt2params.py', 'discs/models/resnet.py'],
    [('load_raw_dataset', 'discs/learning/raw_torch_dataset.py'), ('data_preprocess', 'discs/learning/rbm/main_rbm_training.py'), ('pt2params main', 'discs/learning/binary_ebm/pt2params.py')])
add('C36', 'One step of each sampler makes the transitions of the algorithm it names',
    'From any state, the probability of every possible next state is that of the named algorithm, and the returned acceptance has its expected value: '
    'random walk (each coordinate re-drawn with probability radius/dimension, Metropolis test); Gibbs, block Gibbs (exact conditional of the block); Hamming ball (uniform auxiliary point of the radius-1 ball, then the target inside its ball); '
    'Gibbs-with-gradients and path-auxiliary proposals (coordinates drawn with / without replacement proportionally to g(exp(estimated change)), configured number of flips, path acceptance ratio), DMALA and DLMC (independent per-coordinate moves with the rates of the balancing function, the current or configured step size and the chosen solver); '
    'the locally balanced walk moves to a neighbour proportionally to g of the exact ratio. An informed proposal that degrades to an uninformed one violates this even though the target stays invariant.',
    ['inputs', 'histories', 'configurations'],
    'all samplers, options, energies, start states and adapted step sizes (checked on enumerable spaces)',
    NOTEST + 'A wrong proposal that is still corrected by the acceptance test keeps every invariance check quiet and silently ruins the comparison the benchmark exists for.',
    ALLS, [('step / proposal / acceptance', S + '*')])

add('C37', 'The launcher starts one correctly configured job per swept combination',
    'For every run configuration the launcher starts exactly one job for each combination of values in each sweep group and no other. Each job runs the configured model (and graph type), the sampler that its combination names or else the default one, the experiment file of that kind of problem, and exactly the settings of its combination on top of those given on the command line; nothing leaks from one job into another. '
    'Every job has its own result directory under one folder, whose name lists exactly the settings of its combination in the form the plotting code reads.',
    ['configurations'],
    'all run configurations: models, graph types, samplers, sweep groups, settings, command-line overrides; all shipped run configurations',
    'No test covers it, and XManager is not available.', ['discs/xm_launcher.py', 'discs/run_configs'],
    [('main, make_job, get_sweeps', 'discs/xm_launcher.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
  for p in P:
    f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
