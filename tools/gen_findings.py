"""writes known_findings.jsonl"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C01', '98614a9', 'generate_ranking_pairs dropped its result and returned None'),
 ('C12', '2a5f1ea', 'p_human_choice shifted all queries of a batch by one global maximum: nan for a query far below the best one'),
 ('C07', '251661b', 'RBF length-scale derivative was twice the true derivative'),
 ('C07', '9ebf509', 'RBF.cov added noise on the diagonal between two different sets of equal size'),
 ('C07', 'e70f2b7', 'DualKern.cov_gradient of a product did not multiply by the other factor'),
 ('C07', '1534835', 'periodic kernel derivatives were not the derivatives of the kernel'),
 ('C07', '16e66c4', 'zeroed RBF kernel: normalisation, derivatives and noise at the zero point'),
 ('C08', 'f0b2841', 'PreferenceProbit.calc_W_dF third-order term'),
 ('C09', '37c0ab1', 'second derivative of the ordinal log likelihood'),
 ('C09', 'b367df8', 'several ratings of one point overwrote each other in gradient and Hessian'),
 ('C10', 'fd1f315', 'AbsBoundProbit.calc_W_dF had the opposite sign of W'),
 ('C10', '60fa7a6', 'AbsBoundProbit.calc_W_dHyper was not the derivative by the precision'),
 ('C10', '356bbf3', 'several scores of one point overwrote each other'),
 ('C10', '4984d67', 'grad_param_likli was not the gradient of the flat prior in param_likli'),
 ('C15', '9d419d1', 'k_fold_x_y gave folds whose sizes differ by more than one, or empty folds'),
 ('C24', '5402764', 'single points and lists gave wrong values or crashed in FakeSquaredMinMax, FakeWeightedMax/Min, FakeMixtureGaussian'),
 ('C25', '94172f7', 'calc_cdf divided by the variance, and the switch method crashed on uncorrelated values'),
 ('C04', 'f77f6af', 'a rejected label list left its points in the model'),
 ('C04', '5c9456b', 'explicit ordinal/abs indices were not moved to the points being added'),
 ('C04', '59956c0', 'remove_without_reference ignored ratings and scores, crashed without pairs, lost the prior range'),
 ('C06', 'f2bcc00', 'PreferenceGP.predict crashed when the kernel matrix has no Cholesky factor'),
 ('C11', '6bddb2c', 'random hyper-parameters went to the wrong component or crashed'),
 ('C03', 'cc3df0f', 'pair selection could return points outside the allowed candidates'),
 ('C03', '6e56b7f', 'selection reporting passed-over points ignored fresh candidates and could not use up the passed-over ones'),
 ('C03', '8328578', 'a single requested or remaining point was selected as a pair'),
 ('C03', '3659cb4', 'AcquisitionSelection returned a nested list for its first random choice'),
 ('C03', '8a96063', 'BayesInfoGain returned the same point twice without data and crashed with linear models'),
 ('C22', 'a3a4c04', 'BayesInfoGain greedy probit method ignored the weighted answer probabilities: no candidate ever had any information gain'),
 ('C21', '3e7f801', 'MixedComparision crashed or chose nothing on ties of the weighted scores'),
 ('C21', 'b279247', 'mixed comparison learners crashed when not selected points were returned'),
 ('C21', 'd05afc6', 'mixed decision learners reused reward samples of an earlier query'),
 ('C21', 'a9f188e', 'AlignmentDecision failed on scores before the decision'),
 ('C21', 'e391097', 'AlignmentDecision left the model fitted to part of its data'),
 ('C05', '1c20b66', 'a GP without data ignored its prior mean function'),
]
OPEN = [
 {'id': 'C19-K1', 'property': 'C19', 'case': 'Newton update without an inverse',
  'labels': ['without a Newton direction the update still climbs'],
  'what': 'PreferenceModel.newton_update moves downhill along the gradient when the Hessian cannot be inverted (a linear model '
          'trained on one preference learns its opposite); climbing instead makes the loop-count test '
          'test_pref_linear_function_2_way_pair fail, so it is recorded, not repaired'},
]
ids = {}
with open(os.path.join(ROOT, 'known_findings.jsonl'), 'w') as f:
    for p, c, w in FIXED:
        ids[p] = ids.get(p, 0) + 1
        f.write(json.dumps({'id': '%s-F%d' % (p, ids[p]), 'property': p, 'status': 'fixed', 'case': '', 'labels': [],
                            'what': 'fixed: property=%s %s %s' % (p, c, w)}) + '\n')
    for d in OPEN:
        f.write(json.dumps(dict(d, status='open')) + '\n')
