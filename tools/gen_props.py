"""writes properties.jsonl (kept as code so that statements stay in one place)"""
import json
import os
U = 'src/lop/utilities/'
K = 'src/lop/kernels/'
P = 'src/lop/probits/'
M = 'src/lop/models/'
A = 'src/lop/active_learning/'
ps = []


def p(id, title, st, over, text, why, files, mech, obs=()):
    ps.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why,
               'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           'observe_at': list(obs), 'hook_needed': None}})


p('C01', 'Generated preferences agree with the compared values',
  'Every preference pair produced from values, from a chosen best item or from a ranking names the item with the '
  'larger value as the preferred one (the first item wins ties), never compares an item with itself, and covers each '
  'pair the caller asked for exactly once. Sequences are rejected where single values are compared.',
  ['inputs'], 'all real values (ties included), all reference/best indices, lists up to the stated length',
  'tests compare a few fixed value lists; ties and orderings they do not list are never seen',
  [U + 'preference_pairs.py'], [('pair encoding', 'get_dk, preference'), ('pair lists', 'gen_pairs_from_idx, '
   'ranked_pairs_from_fake, generate_fake_pairs, generate_ranking_pairs')], ['returned pair list'])
p('C02', 'The Pareto filter keeps exactly the non-dominated points',
  'For every set of points the filter returns indices of points that no other point dominates, no two of which cover '
  'each other, and every point left out is matched or dominated by a kept one; index and mask forms agree and the input '
  'is not modified.',
  ['inputs'], 'all real objective values including duplicates, any number of points/objectives within the bound',
  'tests run random clouds without ties; a wrong comparison only shows on ties or special orders',
  [U + 'pareto.py'], [('iterative filter', 'get_pareto')], ['returned indices / mask'])
p('C03', 'Query selection returns a valid, fresh, complete set of candidates',
  'Selecting queries returns exactly the requested number of distinct indices into the candidate list, never one of the '
  'previously selected points, using preferred points first, and keeping the best preferred point when asked to always '
  'include it and nothing was selected before. Points reported as not selected are distinct candidates passed over for '
  'preferred ones, none of them preferred, selected or previously selected. Too few candidates are an error, never padded.',
  ['inputs', 'histories', 'configurations'], 'all candidate counts, previously selected/preferred subsets, model scores, '
  'and random draws within the bound, for every greedy and pairwise selection strategy',
  'tests fix one candidate set, one seed and usually no previous selection',
  [A + 'ActiveLearner.py', A + 'RandomLearner.py', A + 'UCBLearner.py', A + 'BestLearner.py', A + 'GV_UCBLearner.py'],
  [('selection loop', 'ActiveLearner.select, select_greedy, select_best'), ('preferred set',
    'ActiveLearner.get_prefered_set_of_pts'), ('pair metric', 'ActiveLearner.pick_pair_from_metric')],
  ['indices returned by select'])
p('C04', 'Training data stays aligned with its labels through every add history',
  'After any sequence of additions, priors and removals each stored preference, ordinal and absolute label still refers '
  'to the point it was given for and keeps its value; explicit indices refer to the points being added; rejected additions '
  'leave the model unchanged. With Pareto pairs enabled a dominance preference is added for exactly those pairs where a new '
  'point is strictly larger in every objective than another stored point, and never against dominance.',
  ['histories', 'inputs'], 'all sequences of up to the bounded number of add/prior/remove operations with arbitrary values',
  'tests add one or two fixed batches; index shifts over longer mixed histories and rejected additions are not reached',
  [M + 'PreferenceModel.py', M + 'Model.py'], [('add', 'PreferenceModel.add'), ('priors', 'add_prior, get_prior_pts'),
   ('removal', 'remove_without_reference, reset')], ['X_train', 'y_train', 'prior_idx'])
p('C05', 'Gaussian-process regression returns the exact posterior',
  'Predictions equal the posterior mean (including the prior mean function) and covariance of a Gaussian process '
  'conditioned on the added observations and noise, the reported variance is never negative nor above the prior '
  'variance, and with no data the prior is returned.',
  ['inputs', 'configurations'], 'all observation values, positive-definite kernels and prior mean functions within the bound',
  'tests compare with a handful of stored numbers at one hyper-parameter setting',
  [M + 'GP.py', M + 'Model.py'], [('posterior', 'GP.optimize, GP.predict')], ['predict'])
p('C06', 'The preference GP solves and predicts with the Laplace equations',
  'Mode finding climbs the true log posterior: each step uses its exact gradient and Hessian, and it terminates. '
  'Predictions equal the Laplace posterior mean and covariance built from the stored mode, large-batch prediction gives '
  'the same answer point by point, and without data the prior is returned.',
  ['inputs', 'configurations'], 'all training values, modes, weights and test points within the bound',
  'tests check a few stored optima; they cannot distinguish an approximately right Hessian or covariance',
  [M + 'PreferenceGP.py', M + 'PreferenceModel.py'], [('mode', 'find_mode, calc_ll, derivatives'), ('prediction',
   'predict, predict_large, posterior_likelihood')], ['predict', 'F', 'W'])
p('C07', 'Kernels are symmetric, consistent and differentiate exactly',
  'Every kernel, alone or combined by sum or product, is symmetric, its covariance matrix equals the kernel evaluated on '
  'each pair (plus noise only on the diagonal of a set with itself), and parameter gradients equal the true partial '
  'derivatives. Setting parameters and reading them back returns the same values in the same order.',
  ['inputs', 'configurations'], 'all points, hyper-parameters and kernel combinations within the bound',
  'tests evaluate fixed points and check gradient shapes rather than values for most kernels',
  [K + 'KernelFunc.py', K + 'RBF_kern.py', K + 'RBF_kern_zeroed.py', K + 'PeriodicKern.py', K + 'LinearKern.py'],
  [('combination', 'KernelFunc.cov, DualKern'), ('kernels', '__call__, gradient, cov, cov_gradient, set_param, get_param')],
  ['kernel values', 'gradients'])
p('C08', 'Pairwise-preference likelihood is a probability with exact derivatives',
  'For any two latent values the probabilities of preferring one or the other are in (0,1) and add up to one, increase '
  'with the value difference, and reversing a stated preference is the same as swapping its items. Reported gradients, '
  'Hessians and hyper-parameter derivatives of the log-likelihood equal the true derivatives for any set of pairs (scaled '
  'value differences below 30).',
  ['inputs', 'configurations'], 'all latent values, noise levels and pair lists (repeats included) within the bound',
  'tests compare with stored numbers for one pair list',
  [P + 'PreferenceProbit.py', P + 'ProbitBase.py'], [('likelihood', 'likelihood, log_likelihood, likelihood_all_pairs'),
   ('derivatives', 'derivatives, calc_W_dF, calc_W_dHyper, grad_hyper')], ['returned arrays'])
p('C09', 'Ordinal ratings form a distribution with exact derivatives',
  'For any latent value (with fitted or given cut points) the probabilities of all ratings are non-negative and add up to one, larger latent values favour '
  'larger ratings, and gradients and Hessians of the log-likelihood equal its true derivatives for any rating list (where '
  'the rating probabilities are at least 1e-10).',
  ['inputs', 'configurations'], 'all latent values, noise/width settings, number of ratings and rating lists within the bound',
  'tests compare with stored numbers for one rating list',
  [P + 'OrdinalProbit.py', P + 'ProbitBase.py'], [('thresholds', 'set_hyper'), ('derivatives', 'derivatives, likelihood')],
  ['returned arrays'])
p('C10', 'Absolute-score likelihood is a beta model with exact derivatives',
  'The expected score lies strictly between 0 and 1 and increases with the latent value, the likelihood is the beta '
  'density with that mean and the configured precision, and gradients, Hessians and their derivatives equal the true '
  'derivatives for any list of scores.',
  ['inputs', 'configurations'], 'all latent values, precisions, scales and score lists within the bound',
  'tests compare with stored numbers for one score list',
  [P + 'AbsBoundProbit.py', P + 'ProbitBase.py'], [('link', 'mean_link, get_alpha_beta'), ('derivatives',
   'derivatives, calc_W_dF, calc_W_dHyper, grad_hyper')], ['returned arrays'])
p('C11', 'A model combines its data sources and hyper-parameters consistently',
  'The model log-likelihood, gradient and Hessian are the sums over preference, ordinal and absolute data of the '
  'respective parts, and missing kinds of data contribute nothing. Setting all hyper-parameters and reading them back '
  'returns the same values, each reaching the component it belongs to, and the hyper-parameter prior is the sum of the '
  'priors of its parts. A tuning step moves the hyper-parameters against the gradient taken at them, and tuning stops exactly when '
  'the latest gradients average out.',
  ['inputs', 'configurations'], 'all latent values and any combination of data kinds within the bound',
  'tests use one data kind at a time',
  [M + 'PreferenceModel.py', M + 'PreferenceGP.py'], [('sums', 'log_likelihood, derivatives'), ('hyper', 'get_hyper, '
   'set_hyper, hyperparameter_grad')], ['returned values'])
p('C12', 'The human choice model is a softmax distribution',
  'Choice probabilities are non-negative, add up to one for every query, order options by value, do not change when a '
  'constant is added to all values, and stay finite for arbitrarily large or separated values; batches of queries give '
  'each query the probabilities it would have alone.',
  ['inputs'], 'all real values and rationality parameters within the bound, one query or many',
  'tests check small moderate values',
  [U + 'human_choice_model.py'], [('softmax', 'p_human_choice')], ['returned probabilities'])
p('C13', 'Synthetic users answer consistently with their preferences',
  'A simulated user always picks one of the offered options (or the best one for a perfect user), the pairs it reports '
  'prefer the picked option over every other offered one, and its ratings stay in the valid range and never decrease '
  'with value.',
  ['inputs'], 'all utility values, query sizes and random draws within the bound',
  'tests are statistical over fixed seeds',
  [U + 'synthetic_user.py', U + 'HumanChoiceUser2.py'], [('choices', 'choose, choose_pairs'), ('ratings', 'rate'),
   ('rationality', 'learn_beta')], ['returned index / pairs / rating'])
p('C14', 'Sampled sets are distinct and valid',
  'Sampling unique sets returns the requested number of distinct sets, each made of distinct valid items of the requested '
  'size, for every random draw.',
  ['inputs', 'histories'], 'all random draws, set sizes and population sizes within the bound',
  'tests sample with one seed', [U + 'sample_utility.py'], [('rejection sampling', 'sample_unique_sets')], ['returned sets'])
p('C15', 'Cross-validation splits partition the data and keep labels aligned',
  'K-fold splitting puts every label in exactly one fold with fold sizes differing by at most one, and re-indexed subsets '
  'refer to the same points with the same labels as before.',
  ['inputs', 'histories'], 'all fold counts, label lists and shuffles within the bound',
  'tests check one data set', [U + 'training_utility.py'], [('split', 'k_fold_x_y'), ('reindex',
   'get_y_with_idx')], ['returned splits'])
p('C16', 'Score normalisation maps onto the unit interval monotonically',
  'Normalising scores yields values inside [0,1] (up to the requested margin) that keep their order, sending the smallest '
  'and largest score to the ends, and never yields an undefined value when all scores are equal.',
  ['inputs'], 'all real score vectors within the bound', 'tests use one vector', [U + 'training_utility.py', U +
  'HumanChoiceUser2.py'], [('normalisation', 'normalize_0_1')], ['returned values'])
p('C17', 'The Metropolis-Hastings chain only moves as the acceptance rule allows',
  'Every sample of the chain is the initial point, a proposal that was accepted, or a repeat of the previous state; '
  'a proposal at least as likely as the current state is always accepted and an impossible one never. The requested '
  'number of samples is returned in chain order.',
  ['inputs', 'histories'], 'all target likelihoods, proposals and random draws for chains up to the bounded length',
  'tests only compare moments', [U + 'mcmc_sampling.py'], [('chain', 'metropolis_hastings')], ['returned samples'])
p('C18', 'Prior densities on hyper-parameters are consistent with their logs',
  'The gamma prior returns a density whose logarithm and derivative are exactly the reported log density and log-density '
  'gradient for every positive argument and parameter setting; outside the support the log density is minus infinity.',
  ['inputs', 'configurations'], 'all arguments from 1e-6 upwards, shapes and scales', 'tests check single numbers',
  [U + 'gamma_dist.py'], [('density', 'gamma distribution functions')], ['returned values'])
p('C19', 'Line searches improve the objective they are given',
  'The step length found always lies inside the search interval, the grid search returns its best grid step, and on every '
  'concave quadratic the bisection is within its interval resolution of the best step; a Newton update moves along the '
  'Newton direction by that step.',
  ['inputs'], 'all concave quadratic objectives and directions within the bound', 'tests never call them directly',
  [M + 'PreferenceModel.py'], [('line search', 'binary_line_search, iterative_line_search, newton_update')], ['returned step'])
p('C20', 'The linear preference model differentiates its loss exactly',
  'For every weight vector and data set the reported gradient and Hessian of the training loss equal its true '
  'derivatives with respect to the weights, and predictions are linear in the features with the trained weights.',
  ['inputs', 'configurations'], 'all weights, features and labels within the bound', 'tests check the final fit on one data set',
  [M + 'PreferenceLinear.py'], [('loss', 'loss_func, gradient/hessian in optimize'), ('prediction', 'predict')],
  ['gradient', 'hessian', 'predict'])
p('C21', 'Mixed learners ask for the kind of query their policy prescribes',
  'Learners that mix rating and comparison queries switch exactly as their schedule or score comparison prescribes, '
  'return a single point for a rating and the requested set for a comparison, hand the model to every inner learner, and '
  'leave the model with the data it was given.',
  ['inputs', 'histories', 'configurations'], 'all scores, schedules and call histories within the bound',
  'tests only check that something is returned',
  [A + 'MixedStrategy.py', A + 'MixedTypeDecision.py', A + 'RateChooseLearner.py'], [('switching', 'select methods')],
  ['returned query'])
p('C22', 'Greedy learners pick the candidate that maximises their score',
  'Each score-based learner returns a candidate, among those allowed, whose documented score (upper confidence bound, '
  'mean, variance of the difference, information gain, expected alignment, expected entropy) is at least that of every other allowed candidate.',
  ['inputs', 'configurations'], 'all predicted means, covariances and allowed subsets within the bound',
  'tests use one trained model', [A + 'UCBLearner.py', A + 'BestLearner.py', A + 'GV_UCBLearner.py', A +
  'MutualInfoLearner.py', A + 'ActiveLearner.py'], [('scores', 'select_greedy, select_pair')], ['returned index'])
p('C23', 'Query scores are built from normalised probabilities',
  'Probabilities over queries and answers used to score a query are non-negative and add up to one, the belief over '
  'reward samples stays normalised, alignment between reward samples is symmetric and bounded, and representative '
  'queries are valid and distinct.',
  ['inputs', 'histories'], 'all reward samples, weights and draws within the bound', 'tests check shapes only',
  [A + 'AcquisitionBase.py', A + 'AcquisitionSelection.py', A + 'BayesInfoGain.py', A + 'AbsAcquisition.py'],
  [('probabilities', 'p_q, get_p_B, alignment functions'), ('queries', 'get_representative_Q')], ['returned arrays'])
p('C24', 'Test functions reward more of everything and agree on batches',
  'Every synthetic reward function gives a batch the same values as its points one at a time. The monotone ones (linear, '
  'squared, logistic, weighted max and min, squared min-max, min-log) never give a point that is at least as good in every '
  'objective a smaller value.',
  ['inputs', 'configurations'], 'all points in the unit cube and weights within the bound', 'tests evaluate few points',
  [U + 'FakeFunction.py'], [('functions', 'FakeFunction subclasses calc')], ['returned values'])
p('C25', 'Joint comparison probabilities reduce to products when independent',
  'The probability that one Gaussian value beats a set of others is between 0 and 1 and, for independent comparisons, '
  'equals the product of the individual probabilities with the correct standard deviations, for every choice of method '
  'that assumes independence.',
  ['inputs'], 'all means and positive variances within the bound', 'tests compare methods loosely on one input',
  [U + 'probability_utility.py'], [('cdf', 'calc_cdf')], ['returned probability'])
p('C26', 'Calibrating a simulated user aims at the requested reliability',
  'Calibrating a human-like user tunes its choice rationality and its rating noise, each against its own target, on the '
  'squared gap between the target and the chance (or simulated fraction) of a right answer that this very user would give '
  'on the supplied paths; the value the optimiser returns is used, bad fits are retried at most ten times and then rejected '
  'with the old setting kept, and the fitted rating scale sends the worst and best path to the ends of the rating range. '
  'Calibration never asks for more queries than the paths allow.',
  ['inputs', 'histories'], 'all utilities, targets, optimiser answers and random draws within the bound',
  'tests calibrate once on random rewards and accept a wide band of answer rates',
  [U + 'synthetic_user.py', U + 'HumanChoiceUser2.py'], [('one-step calibration', 'HumanChoiceUser2.learn_beta, get_k_b, obj, '
   'rate_obj'), ('repeated calibration', 'HumanChoiceUser.learn_beta, learn_beta_pairwise, learn_sigma, sample_Qs')],
  ['beta', 'sigma', 'k', 'b'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in ps:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(ps))
