"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'state': state} if state else {}),
                               observe_at=observe, hook_needed=None)))


IN, CF, HI = 'inputs', 'configurations', 'histories'

# ------------------------------------------------------------------ resampling
p('R01', 'Unconditional resampling is valid and unbiased for every weight vector',
  'For every normalised weight vector and key, every unconditional resampling scheme returns exactly as many ancestor '
  'indices as there are weights, all inside the range, and never (up to floating-point rounding) an index of weight '
  'zero. Over the random key the expected number of copies of every particle is the number of particles times its '
  'weight.',
  [IN, CF], 'all weight vectors (uniform, degenerate, with zeros, dominated by one), all sizes, all schemes, all keys',
  'the tests fix four keys and one weight vector for two of the seven scheme implementations; systematic, stratified '
  'and the sorted-uniforms multinomial have no test of their own',
  ['fbs/samplers/resampling.py', 'fbs/samplers/csmc/resamplings.py'],
  [('inverse-cdf search on the cumulative weights', 'fbs/samplers/resampling.py'),
   ('kill-and-replace', 'fbs/samplers/resampling.py, fbs/samplers/csmc/resamplings.py')],
  ['return value of each resampling function'])

p('R02', 'Low-variance resampling guarantees: systematic, stratified, killing',
  'Systematic resampling gives every particle the floor or the ceiling of (number of particles x weight) copies, and '
  'stratified resampling draws exactly one ancestor from each of the equal strata of the cumulative weights; both '
  'return their indices in increasing order. Killing keeps every particle of maximal weight in its place, so that with '
  'uniform weights it is the identity.',
  [IN, CF], 'all weight vectors and sizes, every key',
  'tests only look at averages over many keys, which a multinomial scheme also satisfies; the pathwise guarantees must '
  'hold for each single draw',
  ['fbs/samplers/resampling.py', 'fbs/samplers/csmc/resamplings.py'],
  [('one shared / one per-stratum uniform', 'fbs/samplers/resampling.py:_systematic_or_stratified'),
   ('killing comparison against the maximal weight', 'fbs/samplers/resampling.py:killing')],
  ['return value of each resampling function'])

p('R03', 'Conditional resampling has exactly the conditional law',
  'Conditional resampling (killing, multinomial) given that slot j descends from particle i always returns i in slot j, '
  'and the law of the other ancestors is that of a scheme-consistent resampling conditioned on that event. Hence '
  'drawing i from the weights, j uniformly and then resampling conditionally gives back unbiased offspring numbers, for '
  'every weight vector, i and j.',
  [IN, CF], 'all weight vectors (including zeros and one dominating weight), all sizes, all pairs (i, j), all keys',
  'one weight vector per seed and three values of i = j are tested, and only through marginal frequencies with loose '
  'tolerance; the joint conditional law is never looked at',
  ['fbs/samplers/csmc/resamplings.py'],
  [('pinning indices[j] = i', 'fbs/samplers/csmc/resamplings.py:multinomial'),
   ('random cyclic shift J drawn from (1 - w / w_max) / N', 'fbs/samplers/csmc/resamplings.py:killing')],
  ['return value of killing/multinomial with conditional=True'])

# ------------------------------------------------------------------ CSMC / Gibbs
p('C01', 'The conditional SMC forward pass keeps the reference path and its genealogy',
  'For every model, number of particles, reference trajectory and reference indices, the conditional particle system '
  'contains the reference state in its reference slot at every time, that slot descends from the reference slot of the '
  'previous time, and the weights at every time are normalised. The user model functions are called with the particle '
  'ancestors, measurement, previous measurement and time of the same step, so that each weight is the measurement '
  'density of that step given the ancestor actually recorded.',
  [IN, CF, HI], 'all models, horizons, particle numbers, reference indices, state shapes and conditional resampling '
                'schemes',
  'no test looks at the particle system; the two end-to-end tests average over it with tolerances of 0.1 to 0.2',
  ['fbs/samplers/csmc/csmc.py'],
  [('forward scan with conditional resampling', 'fbs/samplers/csmc/csmc.py:forward_pass')],
  ['returned ancestors, log weights and particles'])

p('C02', 'The conditional SMC kernel leaves the smoothing distribution invariant',
  'For every state-space model in which measurements depend on the previous state, every number of particles, every '
  'choice of reference indices and both backward passes (ancestor tracing and backward sampling), applying the '
  'conditional SMC kernel to a trajectory drawn from the exact smoothing distribution gives a trajectory with exactly '
  'that distribution. The returned trajectory is made of particles of the forward pass at the returned indices.',
  [IN, CF, HI], 'all models, horizons, particle numbers, reference indices, resampling schemes, both backward options',
  'two tests run one Gaussian model whose measurement is misaligned with the kernel, with tolerance 0.1-0.2 on second '
  'moments; a biased kernel passes',
  ['fbs/samplers/csmc/csmc.py', 'fbs/samplers/csmc/resamplings.py'],
  [('forward_pass', 'fbs/samplers/csmc/csmc.py'), ('backward_sampling_pass', 'fbs/samplers/csmc/csmc.py'),
   ('backward_scanning_pass', 'fbs/samplers/csmc/csmc.py')],
  ['returned trajectory and indices'])

p('G01', 'The Gibbs kernel targets p(x0 | y0) exactly for any number of particles',
  'When the forward noising sampler is the exact conditional of the joint model, one application of the Gibbs kernel '
  'maps a draw from p(x0 | y0) to a draw from p(x0 | y0), for every number of particles and every initial reference '
  'indices, with or without the explicit backward refresh and with or without the explicit reference initialisation. '
  'The observation y0 stays fixed throughout.',
  [IN, CF, HI], 'all finite-state joint models, horizons, particle numbers, flags, and histories of kernel applications',
  'one Gaussian model, one configuration of the flags, mean and variance only',
  ['fbs/samplers/gibbs.py', 'fbs/samplers/csmc/csmc.py'],
  [('forward draw, conditional SMC, refresh', 'fbs/samplers/gibbs.py:gibbs_kernel'),
   ('forced move selection', 'fbs/samplers/gibbs.py:force_move')],
  ['x0 returned by gibbs_kernel'])

p('G02', 'Gibbs state, indices and initialisation are consistent',
  'Every Gibbs kernel application returns a trajectory of the right shape ending in the returned x0, reference indices '
  'inside the particle range, and change flags that are true exactly where the indices changed. The initialisation '
  'returns, for the filter and the smoother method alike, an x0 that is a draw from the particle approximation of the '
  'conditional given the observation path and is the end point of the returned trajectory, and rejects unknown methods. '
  'Extra keyword arguments reach the user functions unchanged.',
  [IN, CF, HI], 'all models, state shapes, flags, particle numbers and chains of kernel applications',
  'the initialisation has no test, and the returned bookkeeping of the kernel is not looked at by any test',
  ['fbs/samplers/gibbs.py'],
  [('gibbs_kernel return', 'fbs/samplers/gibbs.py'), ('gibbs_init', 'fbs/samplers/gibbs.py')],
  ['returned tuple of gibbs_kernel and gibbs_init'])

p('G03', 'Forced-move selection leaves the weights invariant and reports its move rate',
  'For every weight vector, drawing the current index from the weights and applying the forced move gives an index '
  'distributed as the weights, and its one-step law is the Metropolised independence law that proposes only other '
  'indices. The reported probability is the probability that the index moves.',
  [IN], 'all weight vectors (including zeros, ties and weight one on a single particle), every current index and key',
  'no test calls it directly',
  ['fbs/samplers/gibbs.py'],
  [('force_move', 'fbs/samplers/gibbs.py')], ['returned index and probability'])

# ------------------------------------------------------------------ SMC
p('S01', 'The bootstrap filter is unbiased for any number of particles',
  'For every state-space model, particle number and resampling scheme, the exponential of minus the returned negative '
  'log likelihood is an unbiased estimate of p(v_1..v_K | v_0), also when multiplied by the average of any function of '
  'the returned particles (for the unnormalised filtering expectation), and with a single particle it is the exact '
  'path likelihood. Returning the last step or the whole history gives the same particles and the same likelihood, and '
  'giving densities with the log flag off is the same as giving log densities.',
  [IN, CF], 'all models, horizons, particle numbers, resampling schemes, state shapes',
  'one linear Gaussian model at 1000 particles with tolerance 0.1 on the means; the likelihood is never compared',
  ['fbs/samplers/smc.py'],
  [('bootstrap_filter', 'fbs/samplers/smc.py')], ['returned particles and negative log likelihood'])

p('S02', 'The backward particle smoother draws from its exact backward-recursion law',
  'Given filtering particles of all times, the smoother starts at a uniformly drawn final particle and then moves '
  'backward through the filtering particles with probabilities proportional to the transition density to the already '
  'drawn next state times, when it is given, the measurement density of the next measurement. Every state of the '
  'returned trajectory is a filtering particle of its own time, in time order.',
  [IN, CF], 'all particle systems, transition and measurement densities, horizons, particle numbers',
  'one model, only the posterior mean, relative tolerance 0.2',
  ['fbs/samplers/smc.py'],
  [('bootstrap_backward_smoother', 'fbs/samplers/smc.py')], ['returned trajectory'])

p('S03', 'Particle MCMC is an exact pseudo-marginal Metropolis chain',
  'The particle MCMC kernel either keeps its whole state (sample, log likelihood, path) or replaces all of it, accepting '
  'with probability min(1, proposed/current likelihood estimate) and reporting exactly that, and its paths always '
  'start at the conditioning value. The proposed sample is the terminal particle asked for, or else one drawn uniformly. '
  'Its likelihood estimate is unbiased for any number of particles, and the kernel '
  'leaves invariant the pseudo-marginal law built from the forward path law, the likelihood of the path and the '
  'smoothing law of the terminal state.',
  [IN, CF, HI], 'all models, particle numbers, resampling schemes, proposal sizes, and histories of kernel applications',
  'the only kernel test applies one step to draws from the target with log likelihood zero, where almost any kernel '
  'passes with the given tolerance',
  ['fbs/samplers/smc.py', 'fbs/samplers/common.py'],
  [('pmcmc_kernel', 'fbs/samplers/smc.py'), ('pmcmc_filter_step', 'fbs/samplers/smc.py')],
  ['returned uT, log_ell, ys and MCMC state'])

p('S04', 'The preconditioned Crank-Nicolson proposal preserves the forward path law',
  'For every step size and every Gaussian path law given by its sampler and its mean, a path drawn from that law and '
  'moved by the proposal has again that law, jointly with a symmetric (reversible) pair law with correlation '
  '2 / (2 + step size). The conditioning value at the initial time, where the law is degenerate, is left unchanged.',
  [IN, CF], 'all step sizes, linear SDEs, time grids, dimensions',
  'one step size, marginal mean and variance with tolerance 0.05-0.1',
  ['fbs/samplers/smc.py'],
  [('pcn_proposal', 'fbs/samplers/smc.py')], ['returned path'])

p('S05', 'Twisted SMC targets the conditional defined by the twisting function',
  'For every model, the twisted sampler returns normalised log weights, and its weighted particles converge to the law '
  'of the terminal state under the model reweighted by the terminal twisting function, for any twisting and any '
  'proposal with full support. With the optimal twisting and proposal, starting from a known initial state, all returned '
  'weights are equal and every particle is an exact draw, for any number of particles.',
  [IN, CF], 'all finite-state models, horizons, twisting functions, proposals, resampling schemes',
  'there is no test of the twisted sampler at all',
  ['fbs/samplers/smc.py'],
  [('twisted_smc', 'fbs/samplers/smc.py')], ['returned samples and log weights'])

# ------------------------------------------------------------------ SDEs
p('D01', 'Linear SDE statistics solve their own SDE',
  'For every linear SDE, parameters and times s < t, the transition factor and variance solve the moment ODEs of the '
  'drift and dispersion the same object reports, compose over an intermediate time (Chapman-Kolmogorov), and agree '
  'with its mean and variance functions. The conditional score is the gradient of the Gaussian transition log density, '
  'and the bridge drift is the drift plus the squared dispersion times the gradient of the log transition density to '
  'the target.',
  [IN, CF], 'all parameters of the three SDE families and of the OU factory, all ordered times, all states and shapes',
  'a few fixed parameter values and times; the exponential family is only simulated once',
  ['fbs/sdes/linear.py'],
  [('discretise / mean / variance / beta_integral', 'fbs/sdes/linear.py'),
   ('cond_score_t_0, bridge_drift', 'fbs/sdes/linear.py')],
  ['return values of the SDE methods and factory functions'])

p('D02', 'The forward noising simulators draw from the exact SDE law',
  'For every linear SDE and every increasing grid of times, the path simulator starts at the given state and has '
  'exactly the Gaussian joint law of the SDE at the grid times (means, variances and all cross-covariances), for any '
  'state shape and grid, with independent components. The marginal (no-path) mode has the exact marginal laws given '
  'the initial state at the stated initial time, independent over times.',
  [IN, CF], 'all SDE parameters, irregular grids, state shapes, both modes, explicit and default initial time',
  'tests simulate on one regular grid with fixed parameters and compare moments loosely; the marginal mode is never '
  'called with a vector of times',
  ['fbs/sdes/linear.py'],
  [('simulate_cond_forward', 'fbs/sdes/linear.py')], ['returned paths'])

p('D03', 'Numerical SDE simulators follow their documented recursion on any time grid',
  'Euler-Maruyama applies drift times step plus dispersion times square-root step times unit noise at the left end of '
  'every sub-step, for any increasing or decreasing grid, any number of sub-steps and any state shape, returning the '
  'whole path or its end point consistently. The reverse simulator is that recursion for the time-reversed SDE (minus '
  'drift plus squared dispersion times score at the reversed time), and the discrete-time simulator applies the given '
  'mean and noise functions with the times of each step.',
  [IN, CF], 'all drifts, dispersions, grids (irregular, decreasing), sub-step numbers, shapes',
  'the tests check a loose terminal law for one grid with one sub-step',
  ['fbs/sdes/simulators.py'],
  [('euler_maruyama, reverse_simulator, discrete_time_simulator', 'fbs/sdes/simulators.py')],
  ['returned state or path'])

p('D04', 'The diffusion bridge joins its end points with the bridge law',
  'For every linear SDE, end points and grid, the simulated Doob bridge starts at the initial value, reaches the '
  'terminal value (exactly when replacement is requested), and as the number of sub-steps grows its law at the grid '
  'times converges to the Gaussian conditional law of the SDE given both end points.',
  [IN, CF], 'all SDE parameters, end points, grids, shapes',
  'one SDE and one pair of end points with tolerance on a few times',
  ['fbs/sdes/simulators.py', 'fbs/samplers/gibbs.py', 'fbs/sdes/linear.py'],
  [('doob_bridge_simulator', 'fbs/sdes/simulators.py'), ('bridge_sampler', 'fbs/samplers/gibbs.py')],
  ['returned paths'])

p('D05', 'The Gaussian Schrodinger bridge has the right marginals, dynamics and coupling',
  'For every pair of Gaussians and diffusion coefficient, the bridge mean and covariance equal the two prescribed '
  'Gaussians at times zero and one, the covariance stays symmetric positive definite and solves the moment ODEs of the '
  'SDE with the returned drift and the given diffusion coefficient. The coupling of the two end points implied by the '
  'drift is the entropic optimal one, i.e. its cross precision is minus the inverse squared diffusion coefficient.',
  [IN, CF], 'all means, covariances, dimensions and diffusion coefficients',
  'one fixed pair of Gaussians, unit diffusion coefficient, and a simulated end point with loose tolerance',
  ['fbs/sdes/linear.py'],
  [('make_gaussian_bw_sb', 'fbs/sdes/linear.py')], ['marginal mean, covariance, drift functions'])

# ------------------------------------------------------------------ losses
p('L01', 'Score-matching losses measure the distance to the true conditional score',
  'For every linear SDE and data, a network returning the exact conditional score of the given noised path has zero '
  'loss, and one that differs from it by an offset of c over the standard deviation at each time has loss c squared, for '
  'every key, time randomisation, batch, state shape and memory mode; the transition variants (path mode) likewise are '
  'mean squares around their regression target. The loss evaluates the network at noised states drawn with the forward law from the given '
  'data at increasing times after the initial time up to the terminal time, equally spaced or uniformly random.',
  [IN, CF], 'all SDE parameters, data, shapes, step numbers, loss types, memory and time-randomisation modes, keys',
  'no test evaluates these losses against a value; one test trains a model with the Schrodinger-bridge loss only',
  ['fbs/sdes/linear.py'],
  [('make_linear_sde_law_loss', 'fbs/sdes/linear.py'), ('make_ou_score_matching_loss', 'fbs/sdes/linear.py')],
  ['returned loss value', 'arguments handed to the network'])

p('L02', 'Schrodinger-bridge IPF losses are mean-matching regressions on their own paths',
  'For every drift, dispersion, data, and increasing or decreasing time grid, each iterative-proportional-fitting loss '
  'simulates the simulator process with its own drift, step and noise scale and regresses the parametric function at '
  'the next state and next time on the mean-matching target, averaged as documented, so it is zero for a function '
  'hitting the target and equals the known value with zero dispersion. The vectorised version gives the same value as '
  'the sequential one for the same key.',
  [IN, CF], 'all drifts, dispersions, grids, batch shapes, keys',
  'one training run of one of three losses is tested',
  ['fbs/dsb/base.py'],
  [('ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v', 'fbs/dsb/base.py')], ['returned loss value',
                                                                          'arguments handed to the drifts'])

# ------------------------------------------------------------------ utils
p('U01', 'Exact discretisation of linear time-invariant SDEs',
  'For every system matrix, diffusion matrix and step, the discretisation returns the matrix exponential and the exact '
  'process noise covariance (symmetric, positive semi-definite), and composing two steps gives the discretisation of '
  'the summed step. For scalar systems it agrees with the closed-form OU discretisation.',
  [IN], 'all stable and unstable matrices, rank-deficient diffusions, steps, dimensions',
  'it is used as an oracle by the tests, never checked itself beyond one scalar case',
  ['fbs/utils.py'], [('discretise_lti_sde', 'fbs/utils.py')], ['returned F, cov'])

p('U02', 'Gaussian distances and the matrix square root are exact',
  'For every positive semi-definite matrix, including singular ones, the matrix square root is symmetric positive '
  'semi-definite and squares to the matrix with either method. The Gaussian Wasserstein distance (squared) and the KL '
  'divergence equal their closed forms, are zero only for equal Gaussians, and are invariant to the symmetries they must '
  'have (symmetry and rigid motions; affine maps for KL).',
  [IN], 'all means, covariances (diagonal, ill-conditioned, singular where defined), dimensions',
  'the only test compares two identical standard Gaussians, where both are zero whatever the formula',
  ['fbs/utils.py'], [('sqrtm, bures_dist, kl', 'fbs/utils.py')], ['returned values'])

# ------------------------------------------------------------------ data
p('I01', 'Image restoration masks partition the pixels and unpack/concat are inverse',
  'For every image size, channel number, task and key, the generated mask splits the pixels into observed and '
  'unobserved ones, each exactly once, with the sizes the dataset announces: a square hole inside the image for '
  'inpainting, and exactly one observed pixel in every block for super-resolution (the centre one, or a uniformly random '
  'one); the mask carries the sides and the place of its hole, or its rate. '
  'Unpacking and then concatenating gives back the image exactly, and concatenating then unpacking gives back the '
  'parts, for any leading batch shape.',
  [IN, CF], 'all image shapes (also non-square), channels, tasks, rates, keys, batch shapes',
  'one 32x32x3 shape, two tasks, one key; a mask that is not a partition but covers the image still passes',
  ['fbs/data/images.py'],
  [('gen_mask', 'fbs/data/images.py'), ('unpack, concat', 'fbs/data/images.py')], ['masks and arrays returned'])

p('I02', 'Dataset enumeration and sampling use every item at most once',
  'For every dataset size and batch size, an enumeration consists of disjoint batches of equal size that together cover '
  'as many distinct items as whole batches fit, in random order, and enumerating a batch returns exactly the items of '
  'its indices; a drawn subset consists of distinct items, each subset being equally likely. Train and test splits of a dataset built with the same key '
  'are disjoint and together make up the whole data, and sampled pairs are consistent (the observation is the observed '
  'part of the returned image under the returned mask).',
  [IN, CF, HI], 'all dataset and batch sizes, keys, tasks',
  'one size pair that divides evenly is tested; splits and samplers are not tested',
  ['fbs/data/base.py', 'fbs/data/images.py'],
  [('init_enumeration, enumerate_subset, draw_subset', 'fbs/data/base.py'),
   ('CelebAHQ / MNIST / CIFAR splits, sampler', 'fbs/data/images.py')], ['returned index lists and arrays'])

p('I03', 'Image corruption operators do what their task says',
  'For every image and key, random painting zeroes one square of the given size inside the image and leaves all other '
  'pixels, down-sampling gives a piecewise-constant image made of original pixels, the blur is a normalised linear '
  'filter with values in the unit interval, and clipping/normalisation maps into the unit interval, fixing what is '
  'already there. Channel-wise concatenation and unpacking of image pairs are inverse to each other.',
  [IN, CF], 'all image shapes, rectangle sizes, keys, pixel values',
  'none of these operators is called by a test',
  ['fbs/data/images.py'],
  [('Image.paint, downsample, conv, corrupt, concat, unpack', 'fbs/data/images.py'),
   ('normalise', 'fbs/data/images.py')], ['returned arrays'])

p('I04', 'The Crescent model is one consistent joint distribution',
  'For all parameters (including the prior mean and covariance), the sampler, the log prior, the log likelihood, the score and the posterior of the Crescent '
  'model belong to the same joint law: samples have the density the log functions evaluate, the score is the gradient '
  'of the joint log density, and the posterior grid is the joint density at the given observation, normalised over any '
  'rectangular mesh.',
  [IN, CF], 'all model parameters, states, observations, meshes',
  'a Langevin test compares Wasserstein distances with tolerance 0.2, which did not notice a prior with doubled '
  'variance',
  ['fbs/data/bayesian.py'],
  [('sampler, log_prior_pdf, log_cond_pdf_likelihood, score, posterior', 'fbs/data/bayesian.py')],
  ['returned samples, densities, scores, grids'])

# ------------------------------------------------------------------ nn
p('N01', 'Network wrappers evaluate the wrapped network at the given parameters and time',
  'The flat-parameter wrappers reproduce the wrapped network exactly: the flat vector and the parameter tree convert '
  'back and forth without loss, and the forward pass equals applying the network to the same input, time (scaled where '
  'stated) and parameters. The sinusoidal embedding is the sine/cosine pair at geometrically spaced frequencies for '
  'every even width and is rejected for odd widths, and the pixel shuffle is a pure rearrangement placing the values of '
  'one input pixel in its own block of the output.',
  [IN, CF], 'all network shapes, times, widths, scales, batch sizes',
  'only the pixel shuffle is tested, for one shape with one output channel',
  ['fbs/nn/base.py', 'fbs/nn/utils.py'],
  [('make_st_nn, sinusoidal_embedding', 'fbs/nn/base.py'), ('make_nn_with_time, PixelShuffle', 'fbs/nn/utils.py')],
  ['returned arrays'])

p('N02', 'Time-conditioned networks treat batch items independently',
  'For every admissible image size, channel number and up-sampling method, the U-Net output has the image shape, each '
  'batch item is processed independently of the others and of its position, the output depends on the time (in units of '
  'the step), and a scalar time is the same as that time repeated for every item. A single image gives the same result as '
  'inside a batch. The same holds for the multi-layer and convolutional networks of the preliminary experiments.',
  [IN, CF], 'all admissible sizes, batch sizes, times, up-sampling methods, parameters',
  'no test evaluates the network',
  ['fbs/nn/unet.py', 'fbs/nn/models.py'],
  [('UNet', 'fbs/nn/unet.py'), ('CrescentMLP, GMSBMLP, MNISTResConv', 'fbs/nn/models.py')], ['network output'])

p('N03', 'Training kernels follow optimiser and moving-average semantics over any history',
  'Over any sequence of steps, the optimisation kernel returns the loss at the incoming parameters and the parameters '
  'and state given by one optimiser update with the gradient of that loss, compiled or not. The moving-average kernel '
  'copies the parameters before its start count, afterwards updates with the given decay exactly at the multiples of '
  'its period, and otherwise keeps the average.',
  [IN, CF, HI], 'all losses, optimisers, decay settings and histories of steps',
  'no test calls the training kernels',
  ['fbs/nn/utils.py'],
  [('make_optax_kernel', 'fbs/nn/utils.py')], ['returned parameters, state, loss'])

# ------------------------------------------------------------------ experiments
p('E01', 'The Gaussian experiment scripts sample the posterior they report',
  'For every dimension, noising SDE and experiment id, the Gaussian-process experiment scripts report and save the exact '
  'posterior mean and covariance of their data, and the model pieces they hand to the samplers belong to one and the same '
  'diffusion: the reference sampler draws from the terminal state given the terminal measurement, transition sampler, '
  'transition density and measurement density are the Euler steps of the exact reverse equation, the guidance is the '
  'gradient of the twisting function, and the Kalman filter conditions that Euler model exactly. The saved samples of a '
  'run (except those of the particle MCMC) have the reported posterior mean and covariance up to the step size and the '
  'number of particles.',
  [IN, CF], 'all dimensions, SDEs, ids, samplers and modes; all states, measurements and times',
  'no test runs a script',
  ['experiments/toy/gp_csgm.py', 'experiments/toy/gp_filter.py', 'experiments/toy/gp_gibbs.py', 'experiments/toy/gp_kf.py', 'experiments/toy/gp_pmcmc.py',
   'experiments/toy/gp_twisted.py', 'experiments/sb/filter.py', 'experiments/sb/gibbs.py'],
  [('ref_sampler, transition_sampler, transition_logpdf, likelihood_logpdf', 'experiments/toy/gp_gibbs.py'), ('adhoc_kf', 'experiments/toy/gp_kf.py'),
   ('twisting_logpdf, reverse_cond_drift', 'experiments/toy/gp_twisted.py')], ['module-level pieces of the finished script', 'saved arrays'])

p('E02', 'The image restoration scripts keep what was observed and sample the rest',
  'For every image size, hole or rate, mask, SDE, network parameters, sampler and mode, a run of a restoration script takes '
  'its true images from the test set (the same ones wherever the run starts), leaves every observed pixel as it is in '
  'every restored image (except those of the twisted sampler, which draws whole images), and saves finite arrays and '
  'pictures of them. The parameters are the requested ones (plain or averaged, of the requested epoch), and the model '
  'pieces handed to the samplers are the Euler steps of one and the same reverse equation with the network as its score '
  '(or drift, for the Schrodinger bridge), split into unobserved and observed pixels by the mask. With an exact score, '
  'pixels restored by the filter and the Gibbs samplers have the exact conditional law up to step size and particles.',
  [IN, CF], 'all sizes, tasks, masks, SDEs, parameters, samplers; all states, observations and times',
  'no test runs a script or has a trained network',
  ['experiments/imgs/inpainting.py', 'experiments/imgs/inpainting_csgm.py', 'experiments/imgs/inpainting_twisted.py', 'experiments/imgs/supr.py',
   'experiments/imgs/supr_csgm.py', 'experiments/imgs/supr_twisted.py', 'experiments/sb_imgs/supr.py', 'fbs/data/images.py'],
  [('reverse_drift_u, transition_sampler, likelihood_logpdf', 'experiments/imgs/supr.py'), ('twisting_logpdf, reverse_cond_drift', 'experiments/imgs/supr_twisted.py'),
   ('sampler, unpack, concat', 'fbs/data/images.py')], ['module-level pieces of the finished script', 'saved arrays and pictures'])

p('E03', 'The training scripts learn the law of the data',
  'Whatever the SDE, learning-rate schedule, gradient clipping, batch size, memory mode and loss implementation, a run of the '
  'image training script with a network family that contains the exact score converges to it: the saved parameters and their moving '
  'average both reproduce the score of the training images, and the reverse simulator of the script turns reference noise into '
  'images of the data law. A run of the bridge training script leaves, after every iteration, a backward network that carries '
  'what the forward process made of the data back to the data law, and a forward network that carries the end of the backward process '
  'back to the reference law. With default settings no image is used both for training and for testing, and none is lost.',
  [IN, CF], 'all datasets, SDEs, schedules, batch sizes, options', 'no test runs a training script; convergence is a statement about many random steps',
  ['experiments/imgs/train.py', 'experiments/sb_imgs/train.py', 'fbs/sdes/linear.py', 'fbs/dsb/base.py', 'fbs/nn/utils.py', 'fbs/data/images.py'],
  [('optax_kernel, ema_kernel, rev_sim', 'experiments/imgs/train.py'), ('loss_fn_init, loss_fn_bwd, loss_fn_fwd, sb_kernel', 'experiments/sb_imgs/train.py')],
  ['saved checkpoints and simulated images of the scripts'])

p('E04', 'The result table reports the statistics of the saved runs',
  'For every set of saved results of the toy experiment, the table script prints, for every method, the mean and standard deviation '
  'over the runs of the Kullback-Leibler divergence and Bures-Wasserstein distance between the Gaussian fitted to the samples of a run and the exact posterior '
  'saved with it, and of the mean absolute errors of marginal means and variances, averaged over the chains where there are several.',
  [IN, CF], 'all result files: dimensions, sample sizes, numbers of runs and chains', 'no test runs the script; wrong tables look like right ones',
  ['experiments/tabulators/tabulate_toy.py', 'fbs/utils.py'], [('aggregation over methods and runs', 'experiments/tabulators/tabulate_toy.py'), ('kl, bures_dist', 'fbs/utils.py')],
  ['what the script prints'])

p('E05', 'The image table and all figures show the saved results',
  'For every set of results saved by the experiments, each tabulator script shows what its labels say: the image table prints for every method the mean and standard '
  'deviation over test images and samples of PSNR, SSIM and LPIPS between the saved restorations and the saved true image (all clipped to [0, 1]); curves and bands are the '
  'means and quantiles over the saved runs, autocorrelation curves those of the saved chains, contours level lines of the marginal Gaussians fitted to the saved samples and reported with '
  'them, and every picture or animation frame titled or placed as a method, sample, input or truth is that image.',
  [IN, CF], 'all result files and configurations: datasets, tasks, particle numbers, numbers of runs, chains and samples', 'no test runs these scripts; a wrong figure looks like a right one',
  ['experiments/tabulators/tabulate_imgs.py', 'experiments/tabulators/plot_sb.py', 'experiments/tabulators/plot_autocorrs_toy.py', 'experiments/tabulators/plot_autocorrs_imgs.py',
   'experiments/tabulators/plot_toy_contours.py', 'experiments/tabulators/plot_pmcmc_trace.py', 'experiments/tabulators/plot_imgs.py', 'experiments/tabulators/plot_imgs_appendix.py',
   'experiments/tabulators/plot_sb_imgs.py', 'experiments/tabulators/plot_sb_imgs_anime.py', 'experiments/tabulators/plot_img_coalescence.py', 'fbs/data/images.py', 'fbs/utils.py'],
  [('file names, aggregation over runs, labels', 'experiments/tabulators/*.py'), ('to_img, to_torch_tensor', 'experiments/tabulators/tabulate_imgs.py')],
  ['what the scripts print and the figures they save'])

p('E06', 'Prepared datasets contain the source images; experiment keys are distinct',
  'The preparation scripts turn every source image into exactly one array entry, in the order of the source: CIFAR-10 batches become float32 images (height, width, channel) in [0, 1], training '
  'batches and test batch apart; the CelebA-HQ pictures become float32 images in [0, 1] at their resolution and, anti-aliased with the triangle kernel, at half of it. The script for the random keys '
  'writes the same 1000 distinct keys every time, those the repository ships.',
  [IN, CF], 'all pixel values, pictures and numbers of images', 'no test runs these scripts; permuted channels or transposed images still look like a dataset',
  ['experiments/datasets/make_cifar10.py', 'experiments/datasets/celebaHQ/convert.py', 'experiments/generate_rng_keys.py'],
  [('load_batch and the batch slices', 'experiments/datasets/make_cifar10.py'), ('scaling and resizing', 'experiments/datasets/celebaHQ/convert.py'),
   ('split of the seed', 'experiments/generate_rng_keys.py')],
  ['the files the scripts save'])

p('E07', 'The experiment programs fit together',
  'For every id or seed, all methods of an experiment face the same problem: the Gaussian scripts report the same posterior for the same id (another one for another id), the restoration '
  'scripts the same true images and observed pixels for the same seed. A run keeps all its results, and runs that differ in one option of the experiment (id, particles, SDE, method, step size of the chain, '
  'marginalisation, initial law, dataset, hole size or rate, random mask) save under different names; the scripts that make tables and figures find every file under the name the experiment '
  'gave it. Restoration scripts build the network, and load the checkpoint, that training made. The launch scripts start programs with options these accept, hand through what the user asked for, '
  'treat all methods alike and start every experiment exactly once.',
  [IN, CF], 'all options of the experiments, ids, seeds and image sizes', 'no test runs these programs, let alone several of them after one another; results of different problems or under the wrong name look like results',
  ['experiments/toy/*.py', 'experiments/sb/*.py', 'experiments/imgs/*.py', 'experiments/sb_imgs/*.py', 'experiments/tabulators/*.py', 'experiments/*.sh', 'experiments/bashes/*.sh'],
  [('seeds, file names, network, command line options', 'experiments/{toy,sb,imgs,sb_imgs}/*.py'), ('file names', 'experiments/tabulators/*.py'), ('commands', 'experiments/*.sh, experiments/bashes/*.sh')],
  ['the files the scripts save and read', 'the commands the launch scripts start'])

# ------------------------------------------------------------------ everything
p('A01', 'Every result is a function of the key and the arguments, however it is called',
  'The samplers, simulators, resampling schemes, losses, Gaussian formulas, network constructors and dataset operators of the library are pure functions of their random key and array arguments. '
  'Calling one twice with the same key and arguments gives the same result, whatever was called in between (also on the same dataset or SDE object) and in whichever order, and leaves the arguments unchanged; another '
  'key gives another draw. Up to rounding the result is the same when the call is made eagerly, compiled (jax.jit), batched over keys and arguments (jax.vmap) or carried through a scan '
  '(jax.lax.scan), as the experiments do. With double precision enabled and arguments in double precision all real results come back in double precision.',
  [IN, CF, HI], 'all library entry points, keys, argument shapes and values, orders of calls, ways of calling', 'a test calls a function in one way, once or with the keys it fixes; state left behind by a call, or a branch on a value, '
  'shows only under another order or transformation',
  ['fbs/samplers/resampling.py', 'fbs/samplers/smc.py', 'fbs/samplers/gibbs.py', 'fbs/samplers/csmc/csmc.py', 'fbs/samplers/csmc/resamplings.py', 'fbs/sdes/linear.py', 'fbs/sdes/simulators.py', 'fbs/dsb/base.py',
   'fbs/data/base.py', 'fbs/data/bayesian.py', 'fbs/data/images.py', 'fbs/nn/base.py', 'fbs/utils.py'],
  [('keys split and consumed', 'all functions with a key argument'), ('control flow on traced values', 'scan, cond and where in all samplers'), ('attributes of datasets', 'fbs/data/base.py: perm_inds')],
  ['return values of all entry points under repeated, reordered and transformed calls'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    ids = [q['id'] for q in P]
    assert len(set(ids)) == len(ids)
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
    with open(out, 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
    print(len(P), 'properties')
