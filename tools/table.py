RES = 'fbs/samplers/csmc/resamplings.py'
CS = 'fbs/samplers/csmc/csmc.py'
SMC = 'fbs/samplers/smc.py'
GB = 'fbs/samplers/gibbs.py'
UR = 'fbs/samplers/resampling.py'
LIN = 'fbs/sdes/linear.py'
SIM = 'fbs/sdes/simulators.py'
DSB = 'fbs/dsb/base.py'
UT = 'fbs/utils.py'
IMG = 'fbs/data/images.py'
DBASE = 'fbs/data/base.py'
BAY = 'fbs/data/bayesian.py'
NNU = 'fbs/nn/utils.py'
NNB = 'fbs/nn/base.py'
UNT = 'fbs/nn/unet.py'
MOD = 'fbs/nn/models.py'

prop('C01', 'Conditional resampling pins the reference and keeps the scheme\'s law',
     '''Each conditional resampling scheme, given normalised weights and a pair (i, j), returns as many indices as there are weights, with entry j
     equal to i, and with the joint law of the scheme conditioned on entry j being i. In its unconditional mode every index is retained with the
     marginal frequencies the weights prescribe.''',
     ['inputs', 'configurations'],
     'For every number of particles, every weight vector in the simplex (zero weights included), every reference pair (i, j) and every random draw.',
     '''The tests sample a few weight vectors and compare frequencies within a tolerance; the identity must hold for every weight vector, every pair
     and every draw.''',
     [RES], [('conditional killing, multinomial and systematic', f'{RES}: killing, multinomial, systematic')])

prop('C02', 'Unconditional resampling is unbiased for every weight vector',
     '''Systematic, stratified, multinomial and killing resampling return indices whose expected copy counts are proportional to the weights: each is
     the scheme's generalised inverse distribution function applied to its prescribed uniform points (or its survive-or-replace rule). Index vectors are always
     in range and of the length of the weights.''',
     ['inputs', 'configurations'],
     'For every number of particles, weight vector and random draw.',
     'Tests compare Monte Carlo averages at one size; an error that needs a particular weight pattern, the last index or a tie is not sampled.',
     [UR], [('inverse-CDF resampling', f'{UR}: _systematic_or_stratified, multinomial'), ('killing', f'{UR}: killing')])

prop('C03', 'The conditional SMC forward pass is conditional SMC',
     '''The forward pass resamples conditionally on the reference ancestry, moves every particle, re-inserts the reference at its own position at every
     time and weights the particles with the weighting function at the right observation pair and the ancestors they came from. The weights it hands on are
     normalised, and every function it is given is called at the time it belongs to, with the extra arguments.''',
     ['inputs', 'histories', 'configurations'],
     'For every number of time steps and particles, every reference path and index path, every observation path, model functions and resampling scheme.',
     'The loop invariant must hold at every iteration and size; tests run one linear-Gaussian model at fixed sizes and compare moments.',
     [CS], [('scan over time with the reference re-inserted', f'{CS}: forward_pass'), ('weight normalisation', f'{CS}: normalise')])

prop('C04', 'Trajectory selection leaves the path posterior invariant',
     '''A conditional SMC step draws its new trajectory from the final weights followed by its ancestry, or by backward simulation with weights times
     transition densities; the indices it returns are those of the states it returns. One kernel application is the forward pass followed by this selection with
     independent randomness.''',
     ['inputs', 'histories', 'configurations'],
     'For every number of steps and particles, all weights and ancestries, both selection modes, and all user-supplied densities.',
     'Invariance is a statement about every step of the backward recursion and all weights; tests compare sample moments on a single model.',
     [CS], [('backward sampling and scanning', f'{CS}: backward_sampling_pass, backward_scanning_pass'), ('kernel', f'{CS}: csmc_kernel')])

prop('C05', 'The bootstrap filter is a bootstrap filter with the right likelihood',
     '''At every step the filter moves each particle with the transition of its own time, weights it by the measurement density given the particle it
     came from, resamples the moved particles by the normalised weights, and subtracts the log of the averaged weights from the negative log
     likelihood. It honours its options: densities on the log or on the natural scale, and returning either the last population or the whole
     path of populations starting with the initial one.''',

     ['inputs', 'histories', 'configurations'],
     'For every number of steps and particles, every model, observation path, resampling scheme and option combination.',
     'The tests check one model on the log scale against a Kalman filter within Monte Carlo error.',
     [SMC], [('scan over measurements', f'{SMC}: bootstrap_filter')])

prop('C06', 'The backward smoother simulates from the smoothing law',
     '''The smoother draws its terminal state from the last filtering population and goes back in time drawing each state in proportion to its
     transition density to the state drawn after it. All of its draws use distinct randomness.''',
     ['inputs', 'histories'],
     'For every number of steps and particles and every transition density.',
     'There is one test at one size comparing means; dependence between draws that share randomness does not show in it.',
     [SMC], [('backward scan', f'{SMC}: bootstrap_backward_smoother')])

prop('C07', 'The particle marginal step targets the pseudo-marginal posterior',
     '''A particle marginal Metropolis step proposes a noising path and initial particles, estimates its likelihood with an independent particle filter and
     accepts with the ratio of the likelihood estimates (and of the proposal densities where the proposal is not reversible). A rejected step returns the
     whole previous state, an accepted one the whole proposed state, each with the likelihood estimate that belongs to it.''',
     ['inputs', 'histories', 'configurations'],
     'For every number of steps and particles, model, previous state, option and random draw.',
     'Exactness is about the whole state and every branch; tests check moments of one chain.',
     [SMC], [('likelihood estimate', f'{SMC}: pmcmc_filter_step'), ('accept or reject', f'{SMC}: pmcmc_kernel')])

prop('C08', 'The preconditioned Crank-Nicolson proposal is reversible',
     '''The proposal is reversible with respect to the Gaussian reference it is built for: for every step size it maps the reference to itself and its joint
     law with the proposal is exchangeable.''',
     ['inputs', 'configurations'],
     'For every dimension, step size in the unit interval, mean, covariance and current state.',
     'No test calls the proposal; exchangeability is an identity over all step sizes and covariances.',
     [SMC], [('autoregressive proposal', f'{SMC}: pcn_proposal')])

prop('C09', 'The twisted SMC sampler carries correct importance weights',
     '''The twisted sampler starts from the reference weighted by the initial twist; at every later time it resamples by the current weights, moves the
     particles with the twisted proposal and weights them with transition times new twist over proposal times the old twist of the ancestor. It returns the last population with
     normalised log weights.''',
     ['inputs', 'histories', 'configurations'],
     'For every number of steps and particles and every twisting, transition and proposal function.',
     'No test calls the sampler.',
     [SMC], [('twisted weights', f'{SMC}: twisted_smc')])

prop('C10', 'The forced move keeps the categorical law invariant',
     '''The forced move proposes an index different from the current one with the renormalised weights and accepts it with the ratio that makes the kernel
     reversible with respect to the weights. It reports the acceptance probability of that kernel, and keeps the current index when it carries (nearly) all of the mass.''',
     ['inputs'],
     'For every number of particles, weight vector, current index and random draw.',
     'The law must be invariant for every weight vector; no stable test checks the acceptance probability.',
     [GB], [('Metropolised categorical move', f'{GB}: force_move')])

prop('C11', 'The Gibbs sampler alternates noising and conditional SMC exactly',
     '''One Gibbs step noises the current pair forward, takes the reversed observation path as data and the reversed state path as the
     reference, and applies conditional SMC, or conditional SMC followed by a forced move on the terminal particle and a fresh noising, as configured. The returned state,
     path, indices and acceptance indicators belong to each other. The initialisers produce a path from an unconditional filter or smoother on the same model.''',
     ['inputs', 'histories', 'configurations'],
     'For every number of steps and particles, every model, previous path and index path, and every combination of options.',
     'Exactness concerns every option combination and step; tests run two configurations on one model and compare moments.',
     [GB, CS, SMC], [('kernel', f'{GB}: gibbs_kernel'), ('initialisation', f'{GB}: gibbs_init')])

prop('C12', 'The linear SDE models are consistent with their own moments',
     '''For each stationary linear SDE and the Ornstein-Uhlenbeck model the transition factor and variance solve the moment equations of the drift and dispersion of that
     same model, satisfy Chapman-Kolmogorov, keep the stationary law, and agree with its mean and variance methods. Scores are the gradients of the
     resulting Gaussian densities, and bridge drifts are the Doob transform of the drift.''',
     ['inputs', 'configurations'],
     'For all parameters of the models, all ordered times, states of any shape and dimension.',
     'These are identities over real parameters and times; tests check simulated moments at one parameter value.',
     [LIN], [('coefficients', f'{LIN}: StationaryConstLinearSDE, StationaryLinLinearSDE, StationaryExpLinearSDE'),
             ('discretisation and score', f'{LIN}: make_linear_sde, make_ou_sde')])

prop('C13', 'Forward simulation has the law of the SDE at every requested time',
     '''Conditional forward simulation starts from the given state and returns, at the requested times, either a path whose increments follow the exact transitions or
     independent draws from the marginals given the initial state and time, with fresh noise for every time and component.''',
     ['inputs', 'histories', 'configurations'],
     'For every time grid, initial time, state shape, model parameter and random draw.',
     'Tests simulate one model on one grid and compare two moments.',
     [LIN], [('path and marginal simulation', f'{LIN}: make_linear_sde.simulate_cond_forward, make_ou_sde.simulate_cond_forward')])

prop('C14', 'Numerical integrators discretise the equation they are given',
     '''Euler-Maruyama advances by drift times the substep and dispersion times the square root of its length, at the time of each substep, on every interval, for forward
     and for reversed time grids, and returns the terminal state or the path on the grid. Reverse simulation integrates the time-reversed equation with
     the score, the discrete simulator chains the given transitions, and the bridge simulator uses the bridge drift towards the terminal time and pins the end if asked.''',
     ['inputs', 'histories', 'configurations'],
     'For every grid, number of substeps, state shape, drift, dispersion and score, and all random draws.',
     'Tests compare moments of simulations; an error of the substep times is within Monte Carlo error.',
     [SIM], [('Euler-Maruyama', f'{SIM}: euler_maruyama'), ('reverse, discrete and bridge simulation', f'{SIM}: reverse_simulator, discrete_time_simulator, doob_bridge_simulator')])

prop('C15', 'The training losses are denoising score matching on simulated noisings',
     '''Each loss draws its time grid and noising paths as documented, evaluates the network at every simulated state and its own time, and averages the
     squared error to the conditional score (or the mean-matching target), with the documented weighting, over steps, samples and components. The memory-saving
     variant is the same loss with one time per sample.''',
     ['inputs', 'configurations'],
     'For every batch, state shape, number of steps, network, model and option combination.',
     'No test looks at the value of a loss; they only run one training loop.',
     [LIN], [('score and mean matching', f'{LIN}: make_linear_sde_law_loss'), ('OU score matching', f'{LIN}: make_ou_score_matching_loss')])

prop('C16', 'The half-bridge losses fit the reversal of the simulated process',
     '''Each iterative-fitting loss simulates the current process from the given initial samples along the given grid, with fresh noise for every step, and
     averages over steps, samples and components the squared error with which the other network, evaluated at the state after each step and its own time, matches the
     mean-matching target (or score target) of the reversed step. The simulating parameters receive no part in the prediction, and the predicted ones none in the simulation.''',
     ['inputs', 'configurations'],
     'For every batch, state shape, time grid (increasing and decreasing), networks, drift and dispersion functions and random draws.',
     'Tests only train on one problem and look at moments; a target at a wrong time or with a wrong step is within the tolerance.',
     [DSB], [('discrete and continuous losses', f'{DSB}: ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v')])

prop('C17', 'The Gaussian Schroedinger bridge has the given end points and consistent moments',
     '''The closed-form bridge between two Gaussians has the first as its marginal at time zero and the second at time one; its marginal mean and
     covariance are those of the closed-form solution for the given reference noise, solve the moment equations of its drift, and the drift is the linear
     one of that solution.''',
     ['inputs', 'configurations'],
     'For every dimension, means, positive definite covariances, noise level and time in the unit interval.',
     'The tests simulate one pair of Gaussians and compare the moments at the end.',
     [LIN], [('closed form', f'{LIN}: make_gaussian_bw_sb')])

prop('C18', 'The matrix and Gaussian utilities compute what they are named after',
     '''The matrix square root squares to its argument and is symmetric; the Bures distance and the Kullback-Leibler divergence are those between two Gaussians,
     hence zero for equal ones; the discretisation of a linear time-invariant SDE gives its transition matrix and covariance.''',
     ['inputs'],
     'For every dimension and every positive definite matrix, mean, drift and dispersion matrix and time step.',
     'The tests have at most one example of each; the divergence had no test of its value.',
     [UT], [('utilities', f'{UT}: sqrtm, bures_dist, kl, discretise_lti_sde')])

prop('C19', 'Image restoration masks split images exactly and reversibly',
     '''An inpainting mask is the asked rectangle at a random shift that keeps it inside the image; a super-resolution mask observes exactly one pixel of every block (a random one, or
     the middle one). Observed and unobserved indices are complementary; splitting an image by a mask and putting the parts together again returns every pixel of every
     channel and batch element to its place, and the declared unobserved shape is the actual one.''',
     ['inputs', 'configurations'],
     'For every image size (either orientation), channel count, batch shape, rectangle size that fits the image, rate that divides the image sides, random draw.',
     'Tests use square images of one size, where swapped sides or strides are invisible.',
     [IMG], [('masks', f'{IMG}: ImageRestore._gen_inpaint_mask, _gen_supr_mask'), ('split and restore', f'{IMG}: ImageRestore.unpack, concat')])

prop('C20', 'Image corruption applies exactly the corruption of the task',
     '''Inpainting blanks one square of the asked size, at one of sixteen evenly spread places, in all channels, and leaves every other pixel as it is. Super-resolution shows in every
     block of four or eight pixels the centre pixel of that block. Deconvolution of a single-channel image is the Gaussian blur with a random width, rescaled to the unit interval. Every corrupted
     image is the corruption of the clean image it is paired with, with its own randomness, and pairs are joined and separated along channels without loss.''',
     ['inputs', 'configurations'],
     'For every image size (either orientation, sides divisible by eight for super-resolution), channel count, rectangle and odd kernel size, data set, batch and random draw.',
     'Tests only display images or check shapes of square ones.',
     [IMG], [('corruption models', f'{IMG}: Image.paint, downsample, conv, normalise'), ('pairs', f'{IMG}: Image.sampler, enumerate_subset, concat, unpack')])

prop('C21', 'Mini-batches cut one random permutation of the data',
     '''The batches of an enumeration are disjoint, have the asked size, and together are one uniformly random permutation of as many of the first data as fill whole batches; asking for batch i
     gives exactly the data of those indices. A random subset has no repetition. Standardisation gives every column mean zero and variance one, and reshaping keeps
     the order of the data.''',
     ['inputs', 'configurations'],
     'For every number of data, batch size (dividing it or not), batch index, dimension and random draw.',
     'Tests check one size that divides evenly.',
     [DBASE], [('enumeration', f'{DBASE}: Dataset.init_enumeration, enumerate_subset'), ('subsets and scaling', f'{DBASE}: Dataset.draw_subset, standardise, reshape')])

prop('C22', 'The Crescent model is one model: sampler, densities, score and posterior agree',
     '''Samples of the Crescent data set have exactly the prior and conditional law whose log densities it reports, its score is the gradient of the logarithm of that joint density with
     respect to parameter and observation, and its posterior on a mesh is that joint density normalised to integrate to one over the mesh.''',
     ['inputs', 'configurations'],
     'For all likelihood parameters, states, observations, batch sizes, prior means and covariances (diagonal or not) and rectangular meshes.',
     'Tests check the sample shapes; agreement between densities and samples is an identity over all arguments.',
     [BAY], [('model', f'{BAY}: Crescent')])

prop('C23', 'The training utilities do what the training loop relies on',
     '''An optimiser step applies the update computed from the gradient at the current parameters and returns the new optimiser state and the loss before the update. The moving average is the
     parameter itself before its start, afterwards changes at the multiples of its period only, with the given decay. Networks are evaluated at the flat
     parameters in the order of their initialisation, with the time scaled or passed as asked; the time embedding has geometric frequencies from one to the inverse of the maximal period; pixel shuffling
     moves each channel group to its own place of the finer grid.''',
     ['inputs', 'configurations'],
     'For every parameter, state, loss, optimiser, count, period, decay, network and array size.',
     'Tests run one training loop or check shapes.',
     [NNU, NNB], [('optimisation', f'{NNU}: make_optax_kernel'), ('networks', f'{NNB}: make_st_nn, sinusoidal_embedding; {NNU}: make_nn_with_time, PixelShuffle')])

prop('C24', 'The networks act on every state of a batch separately and as they are drawn',
     '''The UNet and the multi-layer networks map a batch of states and one time, or one time per state, to one output per state; an output depends on its own state and time only, a single time
     standing for that time at every state, in units of the time step of the network. Residual blocks scale and shift normalised features by the embedding of the time, convolution kernels are
     standardised over everything but their output channel, attention averages the values over all positions with softmax weights for each head, and every skip connection enters the decoder
     once, at the level of its own resolution.''',
     ['inputs', 'configurations'],
     'For all parameters, states, times, batch sizes, image sizes divisible by the down-sampling, channel counts, head counts and up-sampling methods, for several choices of the level widths.',
     'Tests check pixel shuffling only; independence of the other states and the wiring of the levels are statements about every batch, size and parameter.',
     [UNT, MOD], [('blocks', f'{UNT}: Downsample, Upsample, WeightStandardizedConv, ResnetBlock, Attention, LinearAttention, AttnBlock'), ('networks', f'{UNT}: UNet; {MOD}: CrescentMLP, GMSBMLP')])

prop('C25', 'Loading keeps every image once and never mixes training and test images',
     '''Loading MNIST, CIFAR10 or CelebA-HQ gives the stored images of the part asked for, unchanged, each exactly once, in the random order of the given key; where one file holds both parts, the training and the
     test images of one key are complementary. The reported number of images and image shape are those of the data, for the generation and for the restoration variants alike.''',
     ['inputs', 'configurations'],
     'For all stored images and keys, at the sizes of the real data sets.',
     'The tests have no data files; that two separately loaded parts never share an image is a relation over all keys.',
     [IMG], [('loading', f'{IMG}: MNIST, CIFAR10, CelebAHQ, MNISTRestore, CelebAHQRestore')])

NA = []
