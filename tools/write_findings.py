"""known_findings.json: defects of the repository found by the checks (repaired ones suppress nothing)."""
import json, os
FIXED = [
 ('C01', 'f9511d5', 'move_to_unknown of several inferred points moved the rows numbered like the identifiers instead of the rows of the identifiers'),
 ('C02', '60458e4', 'moving a labeled point out of the labeled partition left its label behind: the remaining labeled points got the labels of others'),
 ('C05', 'e6eb6c3', 'ExplorationManager appended its own criterion to the list given by the caller (and failed on a tuple)'),
 ('C08', '258e2a6', 'QueryByDisagreement crashed when fewer unlabeled points than background_sample_size remain'),
 ('C09', '634bfc8', 'after a polytope conflict cached points kept their outdated labels'),
 ('C10', '2b8c822', 'the polytope module could not be imported (import glued to the licence comment); C10-C13'),
 ('C10', 'f980c39', 'np.float does not exist in numpy 1.24 and later: CategoricalPolytope.predict and the gaussian kernel diagonal raised; C10, C16'),
 ('C11', 'b31c294', 'MultiSetPolytope accepted a negative point all of whose items are known positive'),
 ('C12', '1f945ad', 'Polytope forgot negative points labeled before any positive one'),
 ('C13', '418e853', 'FactorizedPolytopeModel stopped updating its subspaces after the first conflicting one'),
 ('C13', '28a56df', 'PersistentPolytope did not give the batch that invalidates one alternative to the other'),
 ('C16', 'baece28', 'PolynomialKernel.diagonal was not the diagonal of the kernel matrix'),
 ('C16', '923a4d8', 'FactorizedKernelTransform.fit_transform raised for every kernel without approximation: output sized before its parts were fitted'),
 ('C29', 'a15f317', 'Laplace posterior variance solved with the upper Cholesky factor as if it were the lower one (negative variances)'),
 ('C25', '47609be', 'refine_step_size of one SimplifiedSwapLearner changed the default step size of all later ones'),
 ('C25', 'e1351c3', 'LinearFactorizationLearner could not be built with a proximal optimizer (AttributeError), so neither could a SimplifiedSwapLearner(use_fista=True) nor any learned factorization'),
 ('C18', '00f2941', "L2Penalty's convergence test ignored the penalty under a proximal optimizer"),
 ('C18', '486f71c', 'L2SqrtPenalty.proximal ignored the groups its loss penalises'),
 ('C18', '9376dc6', 'group penalties read uninitialised memory for rows of zero norm'),
 ('C18', '6f4490c', 'the convergence test of L2SqrtPenalty and SparseGroupLassoPenalty ignored the groups: non-optimal zero weights accepted, optimal weights rejected'),
 ('C19', 'e7e8205', 'BFGS raised for every two-dimensional starting point (the form the factorization learner passes) with the installed scipy'),
 ('C23', '11454d8', 'the validators accepted NaN'),
 ('C26', '407d97a', 'the command line accepted a label other than 0 and 1 (for instance 10)'),
 ('C27', '1fc86aa', 'the switch to the full factorization permuted the subspaces by the inverse of the required permutation; C25, C27'),
 ('C27', 'a5a6d37', 'prune_irrelevant_subspaces crashed for a learner without bias'),
 ('C27', '85f2f74', 'LinearFactorizationLearner.copy() crashed with a proximal optimizer (penalty term not passed on)'),
 ('C31', '62e2655', 'convex polytope: when the first positive points (or a negative point and the positive ones) lie on a hyperplane the error of qhull was swallowed, negative points were lost and success was reported'),
 ('C31', 'be9dfcc', 'convex polytope: a vertex of the positive hull labeled negative too did not invalidate the polytope'),
 ('C31', 'e2bae69', 'a pickled convex cone took the facets of another vertex at its next update'),
 ('C30', '2d7aafb', 'RatioMargin.rank raised for every input (classes_ read from an unfitted clone)'),
]
FINDINGS = []
json.dump({'findings': FINDINGS, 'fixed': ['fixed: property=%s %s %s' % f for f in FIXED]},
          open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w'), indent=1)
