"""The catalogue of properties: writes properties.jsonl and MANIFEST.json (python -m dst.catalog)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), level_note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None), level_note=level_note))


CS = 'fbs/samplers/csmc/csmc.py'
SMC = 'fbs/samplers/smc.py'
prop('C01', 'Conditional SMC leaves the smoothing law of the path invariant',
     'Started from a path distributed as p(u_{0:K} | v_{0:K}), one move of the conditional particle filter, with '
     'ancestor tracing or backward sampling and any resampling scheme it accepts, returns a path with that same law, '
     'whatever the number of particles, and only along positions and ancestors that the model allows.',
     ['inputs', 'schedules', 'configurations'],
     'every state-space model (hard zeros, unnormalised or shifted likelihoods, keyword arguments), every observation '
     'sequence, every number of particles from 1 or 2 up, every star path and its indices, every outcome of the random '
     'generator',
     'The tests run one linear-Gaussian model with many particles and compare a moment; invariance has to hold for every '
     'model and for few particles, where a missing or shifted factor is visible and large-N averages hide it.',
     [CS, 'fbs/samplers/csmc/resamplings.py'],
     [('conditional forward pass', CS + ': forward_pass'), ('backward sampling / ancestor tracing',
                                                           CS + ': backward_sampling_pass, backward_scanning_pass'),
      ('kernel', CS + ': csmc_kernel')], ['returned path and indices'],
     level_note='Seeded search: random finite-state worlds, whose smoothing law is enumerated exactly, on up to millions of '
                'simulated chain moves per run; exact-law tests at 6 standard errors after a confirming second stage. '
                'Trusts jax.random and XLA on CPU.')
prop('C02', 'The Gibbs sampler leaves the joint bridge law invariant',
     'One Gibbs move (noise the clean pair forward, then conditional SMC on the hidden part) leaves the joint law of the '
     'bridge given the observation invariant, for all combinations of explicit or implicit initial and final weights, and '
     'never alters the observation it conditions on.',
     ['inputs', 'schedules', 'configurations'],
     'every consistent forward/backward model pair, observation, number of particles, flag combination (explicit_backward, '
     'explicit_final, marginalisation), and random outcome',
     'The tests check means of one Gaussian process example at one setting of the flags; a wrong weight at one end of the '
     'path biases the stationary law by amounts below their tolerance.',
     ['fbs/samplers/gibbs.py', CS],
     [('Gibbs kernel', 'fbs/samplers/gibbs.py: gibbs_kernel'), ('initialisation', 'fbs/samplers/gibbs.py: gibbs_init')],
     ['returned (x0, path, indices)'],
     level_note='Seeded search over finite-state bridges with exactly known joint law; same statistics as C01.')
prop('C03', 'The particle MCMC kernel is an exact pseudo-marginal Metropolis-Hastings move',
     'The particle MCMC kernel accepts with exactly min(1, ratio of the estimated likelihoods), returns either the whole '
     'previous state or the whole proposal, keeps the observation, and its chain of observation path and hidden state has '
     'the stationary law proportional to (proposal law of the path) x (likelihood) x (filtering law), with the '
     'independence and preconditioned Crank-Nicolson proposals.',
     ['inputs', 'schedules', 'histories', 'configurations'],
     'every model, observation, resampling scheme, number of particles down to one, chain length, current state (zero or '
     'extreme likelihood included), every proposal step size',
     'The tests run one Gaussian example and compare moments loosely; exactness for few particles and at extreme states '
     'cannot be sampled from one example.',
     [SMC, 'fbs/samplers/resampling.py'],
     [('kernel', SMC + ': pmcmc_kernel'), ('likelihood estimate', SMC + ': pmcmc_filter_step'),
      ('proposal', SMC + ': pcn_proposal')], ['returned (uT, log_ell, ys, MCMCState)'],
     level_note='Seeded search over finite-state and Gaussian worlds with exactly known stationary law; one known finding '
                '(the target named by the documentation counts the observation path twice).')

EXACT = 'Seeded search over random worlds whose law is known exactly; differences at 6 standard errors on fresh lanes after ' \
        'a screening stage at 4.2. Trusts jax.random and XLA on CPU.'
prop('C04', 'The particle filters estimate likelihoods and filtering laws without bias',
     'The bootstrap filter and the filter inside the particle MCMC return a likelihood estimate whose expectation is exactly '
     'the likelihood of the observations, and weighted particles whose expected integrals against it are exact, for every '
     'number of particles and resampling scheme; the log and non-log forms agree.',
     ['inputs', 'schedules', 'configurations'],
     'every model (hard zeros, likelihoods scaled by extreme constants, keyword arguments), observation sequence, number of '
     'particles from one, resampling scheme, return option and random outcome',
     'The tests compare one Kalman filter with many particles; unbiasedness is a statement about every number of '
     'particles, and an off-by-one of a weight disappears in a large-N average.',
     [SMC, 'fbs/samplers/resampling.py'],
     [('bootstrap filter', SMC + ': bootstrap_filter'), ('filter of the pMCMC', SMC + ': pmcmc_filter_step')],
     ['returned samples', 'returned (negative) log likelihood'], level_note=EXACT)
prop('C05', 'Resampling is unbiased, in range, and never revives a particle of weight zero',
     'Each resampling scheme (systematic, stratified, multinomial, killing, of both modules) returns N ancestors in range '
     'whose expected count is N times the weight, with the joint law of its scheme, and never an ancestor of weight zero, '
     'even at the extreme outputs of the random generator and for weights that sum to one only up to rounding.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every weight vector (one-hot, zeros, ties, tiny and subnormal weights, rounding of the sum in float32), N from 1 to '
     'thousands, every random word',
     'The tests check the mean of one weight vector; revived zero-weight particles occur at rare random words and long '
     'float32 sums.',
     ['fbs/samplers/resampling.py', 'fbs/samplers/csmc/resamplings.py'],
     [('inverse CDF', 'fbs/samplers/resampling.py: _sorted_uniforms, _systematic_or_stratified'),
      ('killing', 'fbs/samplers/resampling.py: killing')], ['returned indices'],
     level_note='Seeded search with a generator that emits extreme words on demand, and exact-law tests; jax.random.choice '
                'is trusted up to rounding of its cumulative sum.')
prop('C06', 'Conditional resampling keeps the reference and follows its conditional law',
     'Conditional resampling puts the reference ancestor i at position j, whatever the weights and random outcome, and the '
     'other ancestors have the law of the unconditional scheme given that (killing with its random rotation, multinomial '
     'with independent draws).',
     ['inputs', 'schedules', 'fault_sequences'],
     'every weight vector, every pair (i, j) with a positive weight at i, N from 2, every random word',
     'The tests check few pairs by moments; the invariance of every conditional sampler rests on the joint law.',
     ['fbs/samplers/csmc/resamplings.py'],
     [('conditional killing', 'fbs/samplers/csmc/resamplings.py: killing'),
      ('conditional multinomial', 'fbs/samplers/csmc/resamplings.py: multinomial')], ['returned indices'],
     level_note='Seeded search; whole joint laws of the ancestor vectors are enumerated for small N.')
prop('C07', 'The forced move selects validly and reports its probability of moving',
     'The forced-move selection of the final particle leaves the weights invariant as a Markov kernel on indices, never '
     'selects a particle of weight zero when another is possible, and the acceptance probability it returns is the '
     'probability that the index changes.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every weight vector (one-hot, ties, zeros), every current index, N from 1, every random word',
     'No test covers it beyond shapes; invariance is a law over all indices.',
     ['fbs/samplers/gibbs.py'], [('forced move', 'fbs/samplers/gibbs.py: force_move')],
     ['returned index', 'returned acceptance probability'],
     level_note='Seeded search; the whole transition matrix is estimated and compared with its stationary equation.')
prop('C08', 'Backward smoother and Gibbs initialisation draw from the right laws',
     'Given the clouds of a filter, the backward particle smoother draws a path with exactly the backward-sampling law of '
     'the model (transition times measurement likelihood), and with many particles the smoother and the Gibbs '
     'initialisation approach the smoothing law and the joint bridge law.',
     ['inputs', 'schedules', 'configurations'],
     'every model and observation sequence, every cloud (repeated particles, hard zeros), every initialisation option, '
     'every random outcome',
     'The tests compare loose moments for one Gaussian model in which the missing factor was not visible.',
     [SMC, 'fbs/samplers/gibbs.py'],
     [('backward smoother', SMC + ': bootstrap_backward_smoother'), ('initialisation', 'fbs/samplers/gibbs.py: gibbs_init')],
     ['returned path'],
     level_note='Exact enumeration of the smoother\'s law for fixed clouds; with many particles deviations below 0.03 in '
                'probability are not decided.')
prop('C09', 'The twisted particle sampler weights its particles correctly',
     'The twisted sampler returns weighted particles whose law is that of a correctly weighted sequential sampler for the '
     'twisted targets: exact for any number of particles, all weights equal under the optimal twisting, consistent with '
     'many particles, whatever the proposal and resampling scheme.',
     ['inputs', 'schedules', 'configurations'],
     'every transition, twisting and proposal table (hard zeros included), horizon, N from 1, resampling scheme, outcome',
     'One test with a Gaussian model and one proposal; the cancelling of weights is a law over all proposals.',
     [SMC], [('twisted SMC', SMC + ': twisted_smc')], ['returned particles and weights'], level_note=EXACT)
prop('C10', 'Chains depend on key and state only, not on schedule, batching or crashes',
     'A chain of any sampler advances as a function of its key and state only: single steps, scanned chunks, batches next '
     'to healthy or diverging neighbours, eager or compiled execution, any interleaving with other chains, loss of all '
     'compiled programs, and a crash followed by a restart from the last durable checkpoint all give the same states.',
     ['schedules', 'crash_points', 'histories', 'fault_sequences'],
     'every schedule of chains, every batch composition including poisoned lanes, every crash point and checkpoint '
     'interval, every sampler',
     'The tests run each sampler once per process; hidden state, leakage between lanes and restarts need histories.',
     [CS, 'fbs/samplers/gibbs.py', SMC],
     [('kernels', 'csmc_kernel, gibbs_kernel, pmcmc_kernel'), ('samplers', 'bootstrap_filter, twisted_smc')],
     ['every state of every chain'],
     level_note='Seeded simulation of schedules with crashes, compared with an undisturbed execution (refinement).')
prop('C11', 'Every random key is consumed at most once',
     'Within one call of a sampler, simulator, loss or dataset function, and within one run of an experiment script, no '
     'random key is drawn from twice, nor drawn from and also split, and no two draws of equal keys occur.',
     ['schedules', 'histories', 'configurations'],
     'every control flow of every public function that takes a key, and whole scripts of experiments/',
     'Reuse only correlates draws: every marginal that a test samples stays right.',
     ['fbs/samplers', 'fbs/sdes', 'fbs/dsb', 'fbs/data', 'experiments'],
     [('key plumbing', 'every jax.random.split in the anchors')], ['every use of a key, through the generator'],
     level_note='Simulated generator that reports each use of each key, in compiled and eager code; repeated identical '
                'splits count only if the children are drawn from twice.')
LIN = 'fbs/sdes/linear.py'
prop('C12', 'Forward noising has exactly the transition law of its SDE',
     'Forward noising of a clean sample has exactly the Gaussian law of the SDE at the requested times: jointly along the '
     'path when the path is kept, marginally otherwise, started exactly at the sample, with independent components, and '
     'consistent with the drift and dispersion that the SDE declares. The discretisation of a linear time-invariant SDE has exactly '
     'its transition law, so that many steps and one long step agree.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every SDE class and parameters, every time grid (irregular, initial time not zero, repeated times), state shape, '
     'precision and random outcome',
     'The tests use one grid from zero and a scalar; a wrong origin of time or shape rule is invisible there.',
     [LIN, 'fbs/utils.py'], [('simulation', LIN + ': simulate_cond_forward'),
                             ('discretisation', LIN + ': discretise_linear_sde; fbs/utils.py: discretise_lti_sde')],
     ['returned path'], level_note=EXACT + ' The oracle integrates drift and dispersion by quadrature.')
SIM = 'fbs/sdes/simulators.py'
prop('C13', 'SDE simulators follow the stated discretisation exactly, bridges their pins',
     'Euler-Maruyama (with substeps), the reverse-time simulator, the discrete-time simulator and the bridge simulators '
     'produce exactly the law of the stated recursion on any increasing or decreasing grid, evaluate their coefficients at '
     'the right times, return the requested times, and end bridges at their pins.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every time-dependent drift, dispersion and score, grid in both directions, number of substeps, shape and outcome',
     'The tests use uniform grids and time-homogeneous coefficients, for which shifted evaluation times are invisible.',
     [SIM, LIN, 'fbs/samplers/gibbs.py'],
     [('simulators', SIM + ': euler_maruyama, reverse_simulator, discrete_time_simulator, doob_bridge_simulator'),
      ('bridge sampler', 'fbs/samplers/gibbs.py: bridge_sampler')], ['returned paths'], level_note=EXACT)
prop('C14', 'Training objectives are unbiased in value and gradient, and stay finite',
     'Each training objective (denoising score matching, its memory-saving form, the bridge losses, and the iterative '
     'proportional fitting losses of the Schroedinger bridge) has as expectation over its key the loss it stands for, in '
     'value and in gradient, and stays finite at extreme random words.',
     ['inputs', 'schedules', 'fault_sequences', 'configurations'],
     'every SDE, initial and final time, number of times, batch size, state shape, loss type, random or fixed times, outcome',
     'The tests train a network for a few steps; a wrong weighting still trains.',
     [LIN, 'fbs/dsb/base.py'],
     [('score matching', LIN + ': make_linear_sde_law_loss, make_ou_score_matching_loss'),
      ('IPF losses', 'fbs/dsb/base.py: ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v')], ['loss and gradient'],
     level_note=EXACT + " 'ipf-score' is decided at fixed times only (its expectation at random times is infinite).")

IMG = 'fbs/data/images.py'
BASE = 'fbs/data/base.py'
prop('C15', 'A dataset epoch visits every item exactly once, in uniform order',
     'An epoch of a dataset consists of full batches of the requested size that are disjoint, visit each item of the (possibly '
     'truncated) data once and in uniformly random order fixed by the key; reading batch i gives exactly the announced items, '
     'unaltered and paired with a corruption of themselves, in any order of access, after restarts, next to other datasets, and '
     'with an explicitly passed permutation taking precedence over the stored one; drawn subsets and samples are uniform.',
     ['inputs', 'schedules', 'histories', 'crash_points'],
     'every dataset kind, size, batch size up to the size, key, order and repetition of accesses, interleaving of several '
     'datasets, point of restart',
     'The tests read one small dataset once; stale permutations, compiled code that keeps the data of a dropped dataset, and '
     'restarts are histories.',
     [BASE, IMG], [('enumeration', BASE + ': init_enumeration, enumerate_subset'),
                   ('image pairs', IMG + ': Image.enumerate_subset, _enumerate_jit'),
                   ('subsets', BASE + ': draw_subset')], ['returned batches'],
     [('perm_inds', 'the batches of the current epoch', BASE + ': Dataset.perm_inds')],
     level_note='Seeded simulation of histories of several consumers with restarts; laws of tiny datasets at 6 standard errors. '
                'Draws of a subset are decided for data of at least two dimensions.')
prop('C16', 'Train and test sets are disjoint, complete and lossless for every key',
     'The train and the test set of each image dataset are disjoint, together contain every picture of the file exactly once and '
     'unaltered, have the stated sizes, are shuffled by the key, and keep the same members whatever the key and however often '
     'and in whichever process they are loaded.',
     ['inputs', 'histories', 'schedules'],
     'every image dataset (MNIST, CIFAR-10, CelebA-HQ, plain and restoration form), resolution, key, and sequence of loads of '
     'both sets by several processes',
     'The data files are not available to the tests, and an overlap of the sets shows only when two loads are compared.',
     [IMG], [('loaders', IMG + ': MNIST, CIFAR10, CelebAHQ, MNISTRestore, CelebAHQRestore')], ['xs of the loaded datasets'],
     level_note='Simulated loads of synthetic numbered files of the real sizes.')
prop('C17', 'Masks partition each picture; restoration inputs keep observed pixels exact',
     'Each restoration mask splits the pixels of a picture into disjoint observed and unobserved parts of the stated sizes (one '
     'observed pixel in each block for super-resolution; a square at the stated uniformly drawn shift for inpainting), unpack '
     'and concat are inverse to each other for any leading dimensions and channels, the sampler returns a picture of the data '
     'with its own observed part, and the corruptions of image pairs change nothing but what they state.',
     ['inputs', 'schedules', 'fault_sequences', 'configurations'],
     'every task, rate or rectangle size, picture shape (also non-square), leading dimensions, key and random outcome, compiled '
     'or eager',
     'The tests check one mask on square pictures; an index convention that is wrong off the square, or at the last random '
     'outcome, is invisible.',
     [IMG], [('masks', IMG + ': ImageRestore._gen_supr_mask, _gen_inpaint_mask'),
             ('split and join', IMG + ': ImageRestore.unpack, concat'),
             ('corruptions', IMG + ': Image.downsample, conv, paint')], ['masks', 'unpacked and joined pictures'],
     level_note='Seeded search over shapes, tasks and random outcomes, with a generator that emits extreme words; the law of the '
                'masks at 6 standard errors. The super-resolution rate has to divide the sides.')

EI = 'experiments/imgs/'
prop('C18', 'Restoration runs keep observed pixels and survive crashes and restarts',
     'A restoration run writes, for each requested test picture, all requested restorations: finite, filled in, distinct where '
     'independent, with the observed pixels exactly those of the test picture (except for the twisted sampler, which only '
     'approximates them), drawn with the requested parameters of the network, close to what the network says about the '
     'measurement, and shown unaltered by the stored pictures. For one test seed every program, method and option restores the '
     'same pictures under the same masks. Restarting with --start_from after a crash at any write loses and overwrites nothing '
     'and continues with the same pictures and masks.',
     ['configurations', 'crash_points', 'histories', 'inputs'],
     'every restoration program, method, task size, mask kind, process, number of particles and samples, start, picture set, '
     'and every sequence of crashes before or within a write followed by restarts',
     'No test runs the experiments; comparability across programs and survival of restarts are relations between several runs.',
     [EI + f for f in ('supr.py', 'inpainting.py', 'supr_twisted.py', 'inpainting_twisted.py', 'supr_csgm.py',
                       'inpainting_csgm.py')] + ['experiments/sb_imgs/supr.py', 'fbs/data/images.py'],
     [('restoration loop', EI + 'supr.py, inpainting.py: conditional_sampler, gibbs_init, pmcmc chain'),
      ('restart', EI + 'supr.py: --start_from')], ['files under imgs/results_* and sb_imgs/results'],
     level_note='Seeded simulation of the unmodified programs on small synthetic pictures; the network is the exact score of '
                'Gaussian pictures. Arrays and pictures are written through numpy and pyplot.imsave; the distance to the posterior '
                'is judged coarsely (a third of the spread).')
prop('C19', 'Training visits all data and its checkpoints hold the latest parameters',
     'Training runs the requested number of epochs; each visits every training item once in a fresh order, with a fresh key for '
     'every step, minimising the requested loss; parameters follow the requested optimiser, the moving average follows its '
     'recurrence over the whole run, and every checkpoint holds the parameters as they are when it is written. Earlier '
     'checkpoints survive a crash at any later write, and running again reproduces the same files. Bridge training alternates '
     'forward and backward learning, simulating each side with the latest network of the other (the reference process only '
     'before any network exists).',
     ['configurations', 'crash_points', 'schedules', 'histories'],
     'every dataset, batch size, number of epochs, optimiser, schedule, clipping and loss option, and every crash before or '
     'within the write of a checkpoint',
     'Training takes days; no test runs it. A moving average restarted at each epoch or a checkpoint of stale parameters shows '
     'only over many epochs.',
     [EI + 'train.py', 'experiments/sb_imgs/train.py', 'fbs/nn/utils.py'],
     [('training loop', EI + 'train.py: for loop over epochs'), ('bridge training', 'experiments/sb_imgs/train.py: sb_kernel'),
      ('optimiser kernel and EMA', 'fbs/nn/utils.py: make_optax_kernel')], ['checkpoints', 'arguments of losses and kernels'],
     level_note='Seeded simulation of the unmodified training programs with a network of a few parameters; small synthetic data; '
                'recurrences compared with an independent optimiser run in float32 tolerance.')
TOY = 'experiments/toy/'
prop('C20', 'Gaussian-process experiments sample the model whose posterior they store',
     'Each Gaussian-process experiment (toy and Schroedinger bridge) draws its measurement from the stated model by its id alone, '
     'so that all methods with the same id are compared on the same measurement, and stores the exact posterior mean and '
     'covariance of that measurement. The samplers receive the requested options and the transition, likelihood, reference and '
     'forward laws of that very model, each density being the density of the sampler it accompanies, and the twisted proposal moving '
     'along the reverse drift tilted by the gradient of its twisting function. Chains start from '
     'consistent states, each stored draw is one application of the sampler with a key of its own, in order, and the draws are '
     'close to the posterior. Different configurations write different results, a crash while writing damages no other '
     'result, and running an id again reproduces it.',
     ['configurations', 'inputs', 'crash_points', 'histories'],
     'every program, dimension, SDE, option combination, number of particles, chains and samples, id, and crash before or within '
     'the write of a result',
     'No test runs the experiments; the errors tabulated from them are meaningless if model and stored posterior differ slightly.',
     [TOY + f for f in ('gp_filter.py', 'gp_gibbs.py', 'gp_pmcmc.py', 'gp_twisted.py', 'gp_csgm.py')] +
     ['experiments/sb/filter.py', 'experiments/sb/gibbs.py'],
     [('model', TOY + 'gp_*.py: joint_cov, reverse_drift, transition_sampler, likelihood_logpdf, ref_sampler'),
      ('chains', TOY + 'gp_gibbs.py, gp_pmcmc.py: *_init and the loop over samples')], ['result files', 'arguments of the samplers'],
     level_note='Seeded simulation of the unmodified programs with recording samplers (model callbacks against float64 formulas, '
                'laws at 6 standard errors), and short whole runs compared coarsely with the posterior.')

TAB = 'experiments/tabulators/'
prop('C21', 'The Gaussian Schroedinger bridge is the bridge between the two Gaussians',
     'For two Gaussians and a diffusion coefficient, the returned marginals, drift and transition describe one diffusion, which '
     'starts in the first Gaussian, ends in the second, has the stated marginal at every time, and whose coupling of the two '
     'ends is the entropy-optimal one. Ensembles simulated forward, or backward with the marginal score, have the law of the '
     'discretised bridge, also when a simulation is stopped at a time of the grid and resumed from what it saved.',
     ['inputs', 'histories', 'configurations'],
     'every pair of Gaussians of moderate condition, diffusion coefficient, dimension, precision, time, grid, number of substeps, '
     'and point at which the simulation is stopped and resumed',
     'The tests compare a few marginals of one pair with one diffusion coefficient; optimality of the coupling and the time reversal '
     'are not tested.',
     ['fbs/sdes/linear.py', 'fbs/sdes/simulators.py'],
     [('bridge', 'fbs/sdes/linear.py: make_gaussian_bw_sb'), ('simulation', 'fbs/sdes/simulators.py: euler_maruyama, reverse_simulator')],
     ['returned callables', 'simulated ensembles'],
     level_note='Seeded simulation of ensembles, compared with the law of the discretised process (6 standard errors), and flows '
                'compared with a float64 bridge. Trusts jax.random.normal.')
prop('C22', 'The crescent model is one joint law: draws, densities, score, posterior',
     'For the crescent example, prior and measurement draws follow exactly the densities that the model declares, the densities are '
     'normalised, the score is their gradient, the posterior on any mesh (not necessarily square) is the normalised product of '
     'prior and likelihood, and Metropolis chains driven by the densities keep the posterior invariant.',
     ['inputs', 'schedules', 'histories'],
     'every parameter pair, batch, measurement, mesh, precision and outcome of the random generator',
     'No test compares the sampler of the crescent with its density, and its posterior is used only on square meshes.',
     ['fbs/data/bayesian.py'],
     [('model', 'fbs/data/bayesian.py: Crescent')], ['draws', 'returned densities'],
     level_note='Seeded simulation of draws and Metropolis chains, judged by their exact law; densities against float64 references.')
prop('C23', 'Tables and figures report the stated statistics of exactly the runs they name',
     'The tables and figures of errors, autocorrelations, traces and contours are computed from the results of the named method '
     'and configuration, each run once, whatever other results lie beside them: the mean and deviation (or the band) over the '
     'runs of the KL divergence from the posterior to the samples, of the squared Bures distance, and of the errors of mean and '
     'variance, averaged over the chains of a run where there are several; of restored pictures, of PSNR, SSIM and, in colour, LPIPS '
     'over pictures and samples. A figure of restored pictures shows, beside the true '
     'picture and the measurement of the experiment, different samples of the named method; the animation shows, in whatever order '
     'its frames are asked for, the sample of that number; the coalescence figure shows the trajectories of all particles and '
     'their spread. A result that is missing, torn or empty '
     'stops the program: nothing is reported for that method. The two measures are right for all pairs of Gaussians.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every set of result files, number of chains, samples and dimensions, precision, other results beside them, and any file missing '
     'or torn; every pair of Gaussians',
     'No test runs these programs. The measures are tested by one pair (the KL divergence not at all), while a missing factor or a '
     'result of the wrong run changes the published tables silently.',
     [TAB + f for f in ('tabulate_toy.py', 'tabulate_imgs.py', 'plot_sb.py', 'plot_autocorrs_toy.py', 'plot_autocorrs_imgs.py',
                        'plot_toy_contours.py', 'plot_pmcmc_trace.py', 'plot_imgs.py', 'plot_imgs_appendix.py', 'plot_sb_imgs.py',
                        'plot_sb_imgs_anime.py', 'plot_img_coalescence.py')] + ['fbs/utils.py'],
     [('measures', 'fbs/utils.py: kl, bures_dist, sqrtm'), ('tabulation', TAB + 'tabulate_toy.py, tabulate_imgs.py')],
     ['standard output', 'what is drawn'],
     level_note='Seeded simulation of the unmodified programs over synthetic result files with injected missing, torn and empty files; '
                'every printed or drawn number against float64 references.')

prop('C24', 'A network is one function of its arguments, however requests are grouped',
     'The networks used as scores and drifts return for a picture, a time and parameters the same value (up to rounding) whether '
     'the picture is served alone or in a batch, in whatever composition and order, at one common time or a vector of times '
     '(training uses the latter, sampling the former), compiled, mapped or not; the value depends on all three. A checkpoint '
     'means the same network in a process that made the network with another batch size or key. Up-sampling by shuffling moves '
     'every channel to its own place, and the time embedding is the stated one.',
     ['inputs', 'schedules', 'histories', 'configurations'],
     'every network, shape, parameter array, time, batch size at creation, and history of requests in any grouping',
     'The tests evaluate only the shuffling of one picture; a network which mixes the pictures of a batch or encodes a vector of times '
     'differently from a scalar trains well and samples wrongly.',
     ['fbs/nn/unet.py', 'fbs/nn/base.py', 'fbs/nn/models.py', 'fbs/nn/utils.py'],
     [('network', 'fbs/nn/unet.py: UNet'), ('functional form', 'fbs/nn/base.py: make_st_nn, sinusoidal_embedding'),
      ('small networks', 'fbs/nn/models.py: CrescentMLP, GMSBMLP')], ['returned values', 'parameter arrays'],
     level_note='Seeded simulation of histories of grouped requests; agreement to single precision. Small networks of the same classes '
                '(8 to 16 features, pictures of up to 8 x 8).')

prop('C25', 'A campaign runs each requested job exactly once, in any order of completion',
     'Every launch script of the experiments (run_*.sh and the bashes they call), in whatever order and with whatever exit status its '
     'jobs and array tasks end, and on however many nodes, starts each requested job exactly once: every id 0-99 (or picture 0-9), '
     'task and method with the requested particles, SDE, step, dataset and first picture, all else as the program defaults; the '
     'local, GPU-cluster and CPU-cluster form of a launcher ask for the same jobs. At most 20 run at a time, jobs sharing a GPU may '
     'together take at most its whole memory, jobs run in experiments/ with their result folder present, and a launcher ends only '
     'after all its jobs. A failed job neither prevents nor repeats another; an unknown dataset starts nothing and is an error. The '
     'commands are accepted by the programs. generate_rng_keys.py gives the stored 1000 distinct keys, and check_integrity.sh '
     'prints the number of stored results.',
     ['schedules', 'fault_sequences', 'histories', 'configurations'],
     'every order of starts and ends, every set of failing jobs and lost nodes, every argument of a launcher',
     'No test runs the launch scripts; a wait at the wrong place or an id computed wrongly gives a table of partly missing or doubled '
     'runs only for some orders of completion.',
     ['experiments/run_toy_all.sh', 'experiments/run_toy_all_local.sh', 'experiments/run_imgs_all.sh', 'experiments/run_sb_all.sh',
      'experiments/run_train.sh', 'experiments/run_sb_train.sh', 'experiments/bashes/toy_gibbs.sh', 'experiments/bashes/imgs_pmcmc.sh',
      'experiments/bashes/sb_filter_dardel.sh', 'experiments/bashes/sb_imgs.sh', 'experiments/check_integrity.sh',
      'experiments/generate_rng_keys.py'],
     [('batches', 'experiments/bashes/toy_*.sh: loops and wait'), ('arrays', 'experiments/bashes/*_dardel.sh: SBATCH -a'),
      ('image jobs', 'experiments/bashes/imgs_*.sh'), ('keys', 'experiments/generate_rng_keys.py')],
     ['started jobs with their arguments, folder and environment', 'exit status of a launcher', 'keys.npy', 'standard output'],
     level_note='Seeded simulation of the unmodified scripts in bash; the simulator ends the jobs (stand-ins) in seeded order with seeded '
                'exit statuses, loses nodes and requeues tasks.')

DS = 'experiments/datasets/'
prop('C26', 'Prepared data hold every source picture once, in place; failures leave none',
     'The data preparation programs store each source picture exactly once, unaltered, at its place: cifar10.npz has the five training '
     'batches in order as train_data and the test batch as test_data, celeba_hq128.npy has picture i from file i, celeba_hq64.npy the '
     'same pictures halved by antialiased linear resizing; rows, columns and colours in their places, single precision in [0, 1]. If a '
     'source file is missing, torn, empty or of a wrong size, the preparation stops with an error and no file is written (an earlier '
     'one stays as it was); a crash while a file is written leaves nothing that can be loaded as a complete data set; running again '
     'after any failure gives the complete files, and the loaders return exactly the prepared pictures. make_cifar10.sh removes '
     'nothing but the downloaded sources.',
     ['inputs', 'fault_sequences', 'crash_points', 'histories'],
     'every content of the sources, every set of missing or damaged source files, every interruption, any number of repetitions',
     'No test runs the preparation; a transposed picture, a skipped file or a half-written result only shows when the complete output is '
     'compared with the sources after a fault.',
     [DS + 'make_cifar10.py', DS + 'make_cifar10.sh', DS + 'celebaHQ/convert.py', IMG],
     [('CIFAR-10', DS + 'make_cifar10.py: load_batch'), ('CelebA-HQ', DS + 'celebaHQ/convert.py'),
      ('download', DS + 'make_cifar10.sh'), ('loaders', IMG + ': CIFAR10, CelebAHQ')],
     ['cifar10.npz', 'celeba_hq128.npy', 'celeba_hq64.npy', 'files left in the folder'],
     level_note='Seeded simulation of preparations with faults; real pickles, archives and JPEG files (those of CelebA-HQ with 8 x 8 pixels '
                'instead of 128 x 128, all 30000 of them).')

prop('C27', 'Restoration programs hand their samplers the reversal of the trained process',
     'In every image restoration program (and the coalescence figure), what the samplers are given is the stated model: the time grid, the noising process of the '
     'training (or, for the bridge, the trained forward network from the chosen start: uniform, blank or interpolated), its reversal '
     'by the network with the requested stored parameters, split by the mask of the picture into transition sampler, transition '
     'density and likelihood, the standard normal reference, and for the twisted sampler the twisting function and the proposal '
     'tilted by its gradient; and the requested number of particles, marginalisation, explicit steps, initialisation and delta. '
     'Restorations of the conditional score program follow the exact law of its discretised process. Each stored restoration is one '
     'application of the sampler to its picture with a key of its own; chains start from their initialisation and pass their whole '
     'state on; the same holds in a run that continues after a crash.',
     ['configurations', 'inputs', 'crash_points', 'histories'],
     'every restoration program, method, process, mask, number of steps, particles and samples, picture, stored parameter choice, and '
     'crash before or within a write followed by a restart',
     'No test runs the experiments; a wrong time, scale or sign in one of these laws still gives plausible pictures.',
     ['experiments/imgs/' + f for f in ('supr.py', 'inpainting.py', 'supr_twisted.py', 'inpainting_twisted.py', 'supr_csgm.py',
                                        'inpainting_csgm.py')] +
     ['experiments/sb_imgs/supr.py', 'experiments/tabulators/plot_img_coalescence.py'],
     [('reversal', 'experiments/imgs/*.py: reverse_drift, transition_sampler, transition_logpdf, likelihood_logpdf'),
      ('twisting', 'experiments/imgs/*_twisted.py: twisting_logpdf, reverse_cond_drift'),
      ('conditional score', 'experiments/imgs/*_csgm.py: euler_maruyama, reverse_drift'),
      ('chains', 'experiments/imgs/supr.py, inpainting.py, experiments/sb_imgs/supr.py: the loops over samples')],
     ['arguments of the samplers', 'result files'],
     level_note='Seeded simulation of the unmodified programs with recording samplers and a network known in closed form; callables '
                'against float64 formulas, laws at 6 standard errors.')

NA = []


def main():
    with open(f'{VERIF}/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != 'level_note'}) + '\n')
    na = {n['property'] for n in NA}
    json.dump(dict(version=1, setup_cmd='./setup.sh', checks=[
        dict(property=p['id'], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --tier thorough",
             evidence_file=f"evidence/{p['id']}.json", technique='deterministic simulation with fault injection',
             level='exploration', level_note=p['level_note']) for p in P if p['id'] not in na],
        not_applicable=NA,
        notes='No hooks in /repo were needed: keys, models, samplers, files and processes are injected through seams the '
              'code already has.'), open(f'{VERIF}/MANIFEST.json', 'w'), indent=1)


if __name__ == '__main__':
    main()
