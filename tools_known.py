"""Write known_findings.json (committed); run by hand only, never by a check."""
import json
FIXED = [
 ('C10', '85cef63', 'Concatenate applied the mask of the whole node instead of the block of each parent'),
 ('C12', '48dd7da', 'Mixture: messages to the mixed parents were wrong when the cluster plate was not the last plate axis'),
 ('C14', '0f1d58a', 'GaussianMarkovChain: parameters shared over the state dimension were summed once instead of D times'),
 ('C10', 'cb43ebd', 'Slicing nodes with a negative step gave wrong plates and messages'),
 ('C20', 'daa1b83', 'Constant nodes exposed their moments as a list that callers could modify'),
 ('C23', '3ed05c9', 'GammaShape contributed a wrong prior term to the lower bound'),
 ('C04', 'a5f8c65', 'Euclidean gradients of Dirichlet and beta nodes were wrong (trigamma terms)'),
 ('C23', '940a5cf', 'DirichletConcentration: lower bound and update used different log-prior scales'),
 ('C22', 'ede3bcf', 'Gamma-to-diagonal-Wishart conversion dropped the log-determinant message'),
 ('C03', '3f63df3', 'logpdf of categorical/multinomial values with zero probability was nan'),
 ('C03', '116ea85', 'Initialising binomial/Bernoulli nodes from a value gave nan or wrong moments'),
 ('C03', 'ed53b59', 'logpdf of Gaussian variables that are scalars or arrays summed the wrong axes'),
 ('C21', 'a1d4d6c', 'misc.flatten_axes with zero axes flattened everything'),
 ('C08', '6049cc1', 'Autosave stored the state before the finished iteration was counted'),
 ('C08', 'db43720', 'VB.load lost the user data'),
 ('C08', 'e4fe6e9', 'VB could not continue after loading only some of the nodes'),
 ('C09', 'fa19385', 'VB.use_logging failed'),
 ('C20', '439de49', 'Deleting a node that still has children corrupted the graph'),
 ('C21', '8be9c28', 'chol_solve with a broadcasted right-hand side returned wrong shape'),
 ('C10', '77636db', 'misc.put/Take ignored plates that are broadcasted explicitly'),
 ('C10', '9b2187d', 'add_plate_axis/transposed plates: messages went to wrong axes'),
 ('C11', 'b73e9fd', 'Add rejected a constant array as its first term'),
 ('C12', '9410b2c', 'Binomial/multinomial messages summed an axis the number of trials does not have'),
 ('C14', 'dded380', 'GaussianMarkovChain with input signals: plates of the inputs were ignored or made the messages fail'),
 ('C15', 'd2e1e33', 'RotateGaussianARD: gradients were wrong or failed when the shape parameter of alpha is not scalar'),
 ('C15', '1d5f51d', 'RotateGaussianMarkovChain failed when the dynamics had not been updated (plates not explicit)'),
 ('C15', '1941031', 'RotateGaussianMarkovChain failed with input signals when the chain has plates'),
 ('C15', '8256e88', 'RotateGaussian was unusable (undefined names, wrong parents)'),
 ('C16', '4c25b84', 'VB.optimize compared with a stale recorded bound: could lower the bound or never end'),
 ('C16', '55f20ea', 'Gamma distributions accepted non-positive shape parameters, so optimisation left the parameter domain'),
 ('C16', '2602aa3', 'Scalar Gaussian distributions accepted negative precisions in optimisation'),
 ('C16', 'e1e3fde', 'Pattern search could end in an infeasible or worse state, or fail'),
 ('C16', 'f9e74fe', 'Point-estimated parameters (gamma shape, concentration) could not be collapsed in optimisation'),
 ('C17', '7da2d24', 'drawing samples of categorical nodes changed their natural parameters in place'),
 ('C17', 'fea4098', 'samples of categorical Markov chain posteriors ignored the messages of later states'),
 ('C17', '3df067b', 'samples of Gaussian-gamma nodes had wrong parameters'),
 ('C17', '1036eb6', 'samples of dot products of Gaussian-gamma nodes and constants were wrong'),
 ('C17', 'cf90fc2', 'utils.random.wishart returned the Gram matrix of the samples'),
 ('C19', '1b27a83', 'Constant.set_value kept invalid values and never updated the sampled value'),
 ('C17', '39d9638', 'show() of GaussianARD nodes printed a wrong covariance or raised'),
 ('C18', 'f8805c6', 'SumMultiply and Dot ignored plate multipliers in their messages'),
 ('C18', 'd49a2f0', 'plate multipliers were lost or misplaced by nodes that change plates'),
 ('C22', 'ea49d42', 'messages through a Gaussian used with fewer variable axes were wrong'),
 ('C21', '85dbbdc', 'linear solvers: wrong broadcasting, output array ignored, empty matrices'),
 ('C21', '89789f2', 'summing helpers: scalar axis and scalar shapes failed'),
 ('C22', 'ce8cd9e', 'the converter search missed converters inherited from grandparent types'),
 ('C23', '633b10f', 'GammaShape became nan when a plate of it has no (unmasked) data'),
 ('C23', '30feee0', 'DirichletConcentration: the iteration stopped long before the optimum for large concentrations, lowering the bound, and became nan without data'),
 ('C19', 'aa814cd', 'a rejected constructor left the rejected node as a child of its parents'),
 ('C19', '7ef0a27', 'observing with an invalid mask changed the moments before raising, or was accepted'),
 ('C19', '9f46839', 'negative counts were accepted when initialising Poisson, binomial and Bernoulli nodes'),
 ('C19', '6b24dfc', 'VB.update and VB.optimize changed nodes before finding out that another name does not exist'),
 ('C10', 'e8f3dd0', 'a tiled node could not be the parent of any node whose moments have parameters (TypeError)'),
 ('C03', '746d6f1', 'GaussianGamma marginals raised AttributeError; the joint density with the precision had the wrong sign of the covariance determinant'),
 ('C24', '3fb5014', 'pdf and contour plots ignored the given axes'),
 ('C24', 'eac42aa', 'contour plots were scrambled when the two grids have different sizes'),
 ('C24', 'a606799', 'plots of variables as functions lacked broadcasted plates and failed for scalars'),
 ('C24', '73c4b49', 'ellipse_from_cov and ellipse_from_precision raised TypeError'),
 ('C24', '81c45a0', 'gaussian_mixture_2d raised, and drew ellipses with wrong orientation'),
 ('C24', 'ea3a60b', 'Hinton diagrams of zero matrices were full and the row axis was ignored for vectors'),
 ('C24', 'b1e46e6', 'GaussianGamma.plotmatrix scaled the covariance twice'),
 ('C24', 'dad1735', 'VB.plot_iteration_by_nodes failed when the iteration buffer was full'),
 ('C04', '6d61eea', 'Euclidean gradient of a multinomial node with an array of trials was wrong or failed'),
 ('C21', '6a4985c', 'covfunc_zeros raised for all arguments (undefined variable)'),
]
KNOWN = [
 dict(id='K01', property='C15', status='known', match=['?"masked","pca",2? predicted*', '?"masked","fa",2? predicted*', '?"masked","pca",2? optimised rotation*', '?"masked","fa",2? optimised rotation*'],
      what='RotateGaussianARD counts plates none of whose descendants is observed, so the predicted change of the bound is wrong for them (cases masked/pca, masked/fa)'),
]
KNOWN.append(dict(id='K02', property='C23', status='known', match=['?"gradient","ml regularised",* gradient of a maximum likelihood parameter*', '?"gradient","ml regularised",* optimisation lowers the bound*'],
     what='MaximumLikelihood(regularization=f): the bound includes -f(x) but the gradient (and so VB.optimize) does not, because no gradient of f can be given (marked TODO in ml.py); cases gradient/ml regularised'))
# later entries are appended by editing this file
out = [dict(id='F%02d' % (i + 1), property=p, status='fixed', commit=c, match=[], what='fixed: property=%s %s %s' % (p, c, w)) for i, (p, c, w) in enumerate(FIXED)]
out += KNOWN
json.dump(out, open('known_findings.json', 'w'), indent=1)
print(len(FIXED), 'fixed', len(KNOWN), 'known')
