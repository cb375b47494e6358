"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})

L, ST, SA, HI, TE, MO = 'src/lib.rs', 'src/state.rs', 'src/sampling.rs', 'src/history.rs', 'src/termination.rs', 'src/mode.rs'
MA, UT, OB, OP, FN = 'src/matrix.rs', 'src/utils.rs', 'src/objective_function.rs', 'src/options.rs', 'src/functions.rs'
PA, WE = 'src/parameters/mod.rs', 'src/parameters/weights.rs'
RM, RO, RS, RL, RI, RB = ('src/restart/' + x for x in ('mod.rs', 'options.rs', 'strategy.rs', 'local.rs', 'ipop.rs', 'bipop.rs'))
PM, PD, PO, PU = ('src/plotting/' + x for x in ('mod.rs', 'data.rs', 'options.rs', 'utils.rs'))

prop('C01', 'Best individuals are tracked exactly',
 "After every completed generation the reported current best is that generation's individual with the best objective value (first in the generation's best-first order), with its own point and value. The reported overall best is the best individual seen since the run began: it is replaced exactly when the generation's best is strictly better under the optimization mode, and is never lost or replaced by an equal or worse one.",
 ['inputs', 'histories'], 'for every sequence of generations and every objective values in them, in both modes',
 'The tests run a few benchmark functions with fixed seeds and check the final value; a wrong tie-break, a stale current best or a lost overall best on non-monotone histories is invisible to them.',
 [HI, SA, L], [('best tracking in the per-generation history update', HI + ' History::update'), ('best-first ordering of a generation', SA + ' Sampler::sample')],
 [('current best / overall best', 'individuals reported to the user', HI)], ['current_best_individual', 'overall_best_individual', 'termination data'])

prop('C02', 'The optimization mode orders every comparison of objective values',
 "In minimization a smaller objective value is better and in maximization a larger one; a comparison is strict, never calls a NaN value better, and choosing between two values, ordering a generation (stable, best first) and judging a function target all follow the same order.",
 ['inputs', 'configurations'], 'for every pair of 64-bit floating point values and both modes',
 'Unit tests compare a handful of pairs; special values, ties and the maximization twin of each site are sampled, not covered.',
 [MO, SA, HI, TE], [('comparison, choice and sort order per mode', MO + ' Mode'), ('sort of a generation', SA)])

prop('C03', 'Objective evaluations and generations are counted exactly',
 "The reported number of function evaluations equals the number of times the objective function has been called, including in a generation that is later rejected because it produced an invalid value. The reported generation number starts at zero and increases by exactly one with each completed state update and never otherwise.",
 ['inputs', 'histories', 'configurations'], 'for every history of generations, rejected ones included, sequential or parallel',
 'Tests count evaluations for ordinary functions only; rejected generations and resampled points are not combined with counting.',
 [SA, ST, L], [('evaluation count', SA + ' Sampler::sample_internal'), ('generation count', ST + ' State::update')],
 [('function evaluations', 'calls made to the objective function', SA), ('generation', 'completed state updates', ST)], ['function_evals', 'generation'])

prop('C04', 'A seed determines the run',
 "With a seed given, every random number the algorithm uses comes from one generator seeded with exactly that seed: no entropy source, global state, environment or clock value influences sampling, state or results. Only when no seed is given is one drawn from entropy, and the seed reported to the user is always the one actually used; the clock influences nothing but the time limit and displayed or recorded elapsed times.",
 ['inputs', 'histories', 'configurations'], 'for every configuration with a seed and every deterministic objective function',
 'Tests compare two runs of a few configurations; they cannot show that no path anywhere draws from another source.',
 [L, SA, RM, RS, RL, RI, RB], [('seed resolution', L + ' CMAES::new'), ('generator construction', SA + ' Sampler::new'), ('run seeding by the restarter', RM)], observe=['rng_seed'])

prop('C05', 'Parallel and sequential execution compute the same run',
 "Running with the parallel entry points, or with parallel state updates enabled, produces the same sampled points in the same order, the same evaluations, the same state update (as a mathematical expression) and the same termination decision as the sequential ones. Every public parallel entry point is its sequential twin with only the evaluation strategy changed.",
 ['schedules', 'configurations', 'inputs'], 'for every thread schedule and every configuration',
 'Tests run both variants on a few functions without comparing them generation by generation, and cannot enumerate schedules.',
 [L, SA, ST, RM, OB], [('parallel evaluation keeps index order', SA + ' evaluate_points'), ('parallel rank-mu reduction', ST)])

prop('C06', 'Candidates are drawn from the documented normal distribution',
 "Every candidate is the current mean plus the step size times the current covariance square-root factor applied to a vector of independent standard normal draws, one draw per dimension, taken in order from the run's generator. Each generation evaluates exactly population-size candidates, and the step recorded with an individual is the one its point was built from.",
 ['inputs', 'histories', 'configurations'], 'for every dimension, population size, mean, step size and covariance',
 'Tests check sample counts and finite values for a few settings; a wrong scale, factor or pairing of steps with points still converges on easy functions.',
 [SA, MA], [('drawing and transforming', SA), ('square-root factor', MA)])

prop('C07', 'Constraints and bounds are enforced with bounded resampling',
 "With constraints set, a candidate is evaluated only if it satisfies them (bounds are inclusive, per coordinate), and rejected candidates are redrawn, only in the number still missing. Constraints stop being enforced exactly when the configured maximum number of resampling rounds has been used, and with no maximum they are always enforced.",
 ['inputs', 'histories', 'configurations'], 'for every constraint function, bounds, point and resampling limit',
 'Tests use a few bounds and one limit; off-by-one limits, boundary points and the no-limit configuration are not covered for every input.',
 [SA, OP], [('resampling loop', SA), ('bounds test', SA)])

prop('C08', 'Invalid objective values are reported and change nothing else',
 "If and only if some evaluation of a generation returns NaN, the generation is rejected and exactly the invalid-function-value reason is reported; infinite values are valid. A rejected generation leaves the distribution, generation number, best individuals and histories as they were.",
 ['inputs', 'histories'], 'for every position and history at which an objective function returns NaN or an infinity',
 'One test returns NaN from the first call; every other position and the untouched state afterwards are unexplored.',
 [SA, L], [('value check', SA + ' EvaluatedPoint::new'), ('early return', L + ' CMAES::next')])

prop('C09', 'Invalid options are rejected with the documented error',
 "Building an optimizer fails exactly when the initial mean is empty, the population size is below two, the initial step size is not a normal positive number, or the mean learning rate is not a normal number in (0, 1], each with its own error, reported in that order when several apply; every other combination of options builds.",
 ['inputs', 'configurations'], 'for every combination of option values, special floating point values included',
 'Tests try one or two invalid values per option; NaN, infinities, subnormals and combinations are not enumerated.',
 [L, OP], [('validation', L + ' CMAES::new')])

prop('C10', 'Options have the documented defaults and reach the algorithm unchanged',
 "Every option has its documented default, and each setter changes its own option only, to exactly the given value. Every option value reaches the place that uses it unchanged, whether it was given or defaulted.",
 ['inputs', 'configurations'], 'for every dimension, every option and every value',
 'Tests set few options and read back fewer; a cross-wired setter or an ignored option still runs.',
 [OP, L, PA], [('defaults and setters', OP), ('derived parameters', PA)])

prop('C11', 'Strategy parameters follow the published formulas',
 "Selection weights, variance-effective selection mass, learning rates, damping and the derived termination tolerances equal the documented CMA-ES formulas for every dimension, population size and weights setting. Positive weights sum to one and are non-increasing by rank, and negative weights are used only in the negative setting.",
 ['inputs', 'configurations'], 'for every dimension, population size, weights setting and mean learning rate',
 'Tests compare a few numbers for one or two dimensions and population sizes.',
 [PA, WE], [('parameter formulas', PA), ('weights', WE)])

prop('C12', 'Mean, step size and evolution paths are updated by the published equations',
 "Each generation updates the mean, both evolution paths and the step size exactly by the cumulative step-size adaptation equations from the best-ranked individuals' steps and the previous state, each value read before or after its update as the equations require.",
 ['inputs', 'histories', 'configurations'], 'for every previous state, generation number and set of evaluated individuals',
 'Tests check convergence on benchmark functions; a slightly wrong coefficient or a value read too late still converges.',
 [ST], [('state update', ST + ' State::update')])

prop('C13', 'The covariance matrix is updated by the published equations',
 "Each generation replaces the covariance matrix by the rank-one plus rank-mu combination of the previous matrix, the updated evolution path and every individual's step with its rank's weight, with the negative-weight rescaling and the stall correction as documented.",
 ['inputs', 'histories', 'configurations'], 'for every previous state and set of evaluated individuals, with and without negative weights',
 'As for the mean: tests see only convergence; a missing term or swapped coefficient often still converges.',
 [ST, MA], [('covariance update', ST), ('storage', MA + ' CovarianceMatrix::set_cov')])

prop('C14', 'The eigendecomposition is coherent, normalized and refreshed on schedule',
 "The stored eigenvectors, eigenvalue square roots, inverse square root and sampling factor are always recomputed together from one symmetric covariance matrix, and are the identity's at the start. They are recomputed in exactly the generations in which the documented number of evaluations has passed since the last time, and a failed decomposition or a non-positive eigenvalue ends the run with the not-positive-definite reason.",
 ['histories', 'inputs', 'configurations'], 'for every history of covariance matrices and every evaluation count',
 'Tests factor two or three matrices; the schedule over a run and partial updates are not observed.',
 [MA, ST, PA], [('decomposition', MA), ('schedule', ST)])

prop('C15', 'Resource limits and the function target stop the run when reached',
 "The evaluation, generation and time limits are reported exactly when set and the count or elapsed time has reached the limit, and the function target exactly when set and some individual of the generation is strictly better than it under the mode; an unset limit never stops a run.",
 ['inputs', 'histories', 'configurations'], 'for every limit, count, elapsed time, target and set of values',
 'Tests check one value on each side; the exact boundary, both modes and unset options are not all covered.',
 [TE], [('termination criteria', TE)])

prop('C16', 'Function-value criteria use the documented windows and tolerances',
 "The function-value change criteria (absolute, relative and history-range) and the stagnation criterion are reported exactly when the documented condition on the recorded best and median values holds: over windows of the documented length, only once enough generations are recorded, with strict comparisons against the configured tolerances and in the direction of the mode.",
 ['inputs', 'histories', 'configurations'], 'for every recorded history of values, tolerances and generation number',
 'Tests feed a few constant or monotone histories; window bounds and orientation are not covered for every history.',
 [TE, HI, UT], [('criteria', TE), ('range and median helpers', UT)])

prop('C17', 'Distribution-based criteria use the documented conditions',
 "The criteria on the step size and distribution (too small in every coordinate, step size grown too much, bad condition number, no effect along a principal axis, no effect in a coordinate) are reported exactly when the documented condition on the current distribution holds, and never otherwise.",
 ['inputs', 'histories', 'configurations'], 'for every distribution state and tolerance',
 'Tests set up one state per criterion; each condition quantifies over all coordinates, axes and generations.',
 [TE, ST], [('criteria', TE)])

prop('C18', 'A run stops at the first generation with a reason and reports it faithfully',
 "Each step returns termination data exactly when at least one criterion holds in that generation, or sampling or the state update failed, and the data holds all those reasons, the current and overall best individuals and the current mean. A full run performs steps until the first such step, does nothing to the state after it, and returns that step's data.",
 ['histories', 'inputs'], 'for every sequence of steps and every combination of criteria',
 'Tests look at runs that end for one reason; combinations and the order of work inside a step are not covered.',
 [L, TE], [('step', L + ' CMAES::next'), ('run', L + ' CMAES::run')])

prop('C19', 'Value histories are complete, newest first and bounded',
 "Each completed generation adds exactly one best value and one median value at the front of the histories, which keep the most recent twenty thousand entries and never more; the median of an even-sized set is the mean of its two middle values. The first median and the best median are the first recorded median and the best median ever recorded under the mode.",
 ['inputs', 'histories'], 'for every number of generations and all values',
 'A test that reaches the bound checks the length once; order, medians and long histories are sampled.',
 [HI, UT, SA], [('history update', HI), ('median', HI)])

prop('C20', 'Accessors report the state they name',
 "Every public accessor returns the current value of the quantity it is documented to return, without changing the optimizer: mean, step size, covariance, eigenvectors, square-rooted eigenvalues, axis ratio, evolution paths and parameters agree with the distribution used for sampling. Giving up the optimizer returns the objective function it was built with.",
 ['inputs', 'histories', 'configurations'], 'for every optimizer state',
 'Accessors are called in a few tests without being compared with the sampled distribution in every state.',
 [L, PA, HI], [('accessors', L), ('parameter accessors', PA)])

prop('C21', 'Plot data mirrors the run',
 "A plot's recorded data are parallel series with one entry per recorded generation, each the value of that generation; a generation is recorded at most once, recording happens in the first generations and then whenever the configured number of evaluations has passed, and clearing keeps exactly the latest entry. Recording never changes the optimizer.",
 ['histories', 'configurations', 'inputs'], 'for every history of generations, clears and evaluation gaps, huge gaps included',
 'Tests draw a few plots and check lengths; the values, the schedule and the effect of clearing are not covered over all histories.',
 [PM, PD, L, PU], [('data recording', PD), ('schedule', PM), ('call sites', L)])

prop('C22', 'Only saving a plot touches the file system',
 "No operation of the library reads or writes files, except saving a plot, which writes to the given path only, creates parent directories only when asked to, and returns every error of a file or drawing operation to the caller. No library operation starts processes, opens network connections or reads the environment.",
 ['inputs', 'fault_sequences', 'configurations'], 'for every operation, option and path, and every I/O failure',
 'Tests save a few plots to a writable directory; the absence of effects elsewhere and failing file systems are not observable to them.',
 [PM, 'src/plotting/draw.rs'], [('saving', PM + ' Plot::save_to_file')])

prop('C23', 'Printing follows the configured gap and influences nothing',
 "Nothing is printed unless printing is enabled; when it is, a status line is printed in the first generations and then whenever at least the configured number of evaluations has passed since the last gap line. Printing changes nothing but its own bookkeeping.",
 ['histories', 'configurations'], 'for every history of evaluation counts and every gap',
 'Tests do not capture output.',
 [L, RM], [('printing schedule', L)])

prop('C24', 'Restarts account for runs and stop for the right reason',
 "A restarter's results hold the best individual over all its runs (replaced only by a strictly better one), the total evaluations of all its runs and the number of runs started and finished. It stops before a run when the maximum runs, evaluations or time have been reached, after a run when the run was invalid, reached the target or was the strategy's last, and reports that reason; limits are tested in that order.",
 ['histories', 'configurations', 'inputs'], 'for every sequence of run results and every combination of limits',
 'Tests check single limits on easy functions; ordering of limits, ties and accumulated counts over many runs are not covered.',
 [RM, RS], [('restart loop', RM + ' Restarter::run_internal')])

prop('C25', 'Each restart run is configured from the restart options and fresh randomness',
 "Every run gets a fresh initial mean drawn uniformly per coordinate from the search range and a fresh seed, both from the restarter's generator in that order, the restarter's mode, target, parallel-update setting and per-run limits, and all other options unchanged from the restarter's defaults. The objective function is the reused one when reuse is requested and a newly obtained one otherwise.",
 ['histories', 'configurations', 'inputs'], 'for every option combination and every number of runs',
 'Tests verify that runs happen; which options reach which run, and in which order randomness is drawn, is not checked.',
 [RM, RS], [('run set-up', RM)])

prop('C26', 'The local restart strategy makes the configured number of small-step runs',
 "The local strategy starts every run with the configured fraction of one hundredth of the search range as the step size, leaves every other run option alone, and stops exactly after the configured number of runs; configured with zero runs, it makes none.",
 ['histories', 'configurations'], 'for every range, fraction and number of runs',
 'Tests run two or three restarts.',
 [RL], [('strategy', RL)])

prop('C27', 'The IPOP strategy multiplies the population by the configured factor each run',
 "Each run's population is the default population times the product of the configured factor over the previous runs, with half of the search range as the step size; the strategy stops after its fixed number of runs.",
 ['histories', 'configurations'], 'for every factor, default population and number of runs',
 'Tests run two or three restarts with the default factor.',
 [RI], [('strategy', RI)])

prop('C28', 'The BIPOP strategy alternates its two regimes by the evaluations they used',
 "A small-population run is made exactly when the large-population regime has run and has used more evaluations than the small one, otherwise a large one; both regimes set population, step size and evaluation budget by their documented formulas, a small run never exceeds half of the last large run's evaluations, and the strategy stops after its fixed number of large runs.",
 ['histories', 'configurations'], 'for every sequence of evaluation counts, factors and user limits, with or without an evaluation limit',
 'Tests run a few restarts; regime choice and budgets depend on histories of evaluation counts.',
 [RB], [('strategy', RB)])

prop('C29', 'Restart options have the documented defaults, validation and effect',
 "Restart options and strategy options have their documented defaults, each setter changes its own option only, and flipped search ranges are put in order. Construction fails exactly for a zero dimension, an empty search range or an invalid strategy factor, each with its own error.",
 ['inputs', 'configurations'], 'for every option combination and special floating point values',
 'Tests try one value per option.',
 [RO, RM, RL, RI, RB], [('options', RO), ('validation', RM)])

prop('C30', 'Objective wrappers call the wrapped function once with the intended point',
 "Every provided way of supplying an objective function (closures, references, boxes, the scaling adapter) evaluates the wrapped function exactly once per evaluation and returns its value unchanged; the scaling adapter passes the component-wise scaled point and no other wrapper changes it.",
 ['inputs', 'configurations'], 'for every wrapped function and every point',
 'Tests evaluate one point through some wrappers.',
 [OB], [('wrappers', OB)])

prop('C31', 'The one-call helpers minimize and maximize as documented',
 "The one-call helpers run one optimization of the given function from the given mean and step size in the named direction with default options otherwise, and return the best individual of the whole run with its value.",
 ['inputs', 'configurations'], 'for every function, mean and step size',
 'One example per helper is tested.',
 [FN], [('helpers', FN)])

prop('C32', 'No unsafe code, global mutable state or hidden thread-unsafety',
 "The library contains no unsafe code, no mutable global or thread-local state and no manual thread-safety claims, so distinct optimizers are independent of each other. Results, plots, errors and strategies can be sent to and shared with other threads, an optimizer and its options can be shared whenever the objective function can, and constraints and functions used in parallel must be callable from several threads.",
 ['programs', 'schedules'], 'for every program using the library and every interleaving of threads',
 'Thread-safety of types is a statement about all programs; no test exercises it.',
 ['src'], [('type definitions and trait bounds', 'src')])

prop('C33', 'User-supplied limits and gaps never overflow',
 "No arithmetic combines a user-supplied integer limit or gap with a running count in a way that can overflow and panic or wrap: limits up to the largest representable value behave as limits that are never reached.",
 ['inputs', 'configurations', 'histories'], 'for every integer option value up to the largest representable one and every reachable count',
 'Tests use small limits and gaps.',
 [L, PM, RM, TE], [('schedules computed from gaps and limits', PM), ('printing gap', L)])

prop('C34', 'Optimization converges on well-behaved functions',
 "On unimodal functions with moderate conditioning the optimizer reaches any achievable target within a number of evaluations that is polynomial in the dimension.",
 ['inputs', 'histories'], 'for every such function, start point and seed',
 'Tests sample a few functions and seeds.',
 [ST, SA], [('whole algorithm', 'src')])

prop('C35', 'Rounding never breaks positive definiteness of a well-conditioned covariance',
 "As long as the covariance matrix is well conditioned, floating point rounding in the update and in the decomposition never makes it indefinite, so a run does not end with the not-positive-definite reason for numerical noise alone.",
 ['histories', 'inputs'], 'for every history of updates within the conditioning limit',
 'Tests run for a few hundred generations at most.',
 [ST, MA], [('covariance update and decomposition', ST)])

prop('C36', 'A saved plot draws every recorded series, inside its axes',
 "Saving a plot hands every recorded series to the drawing library completely and in recording order: the four panels, on areas of their own, draw a point (function evaluations, value) for every recorded generation whose value is a number, for the absolute best and median function values, the step size, the axis ratio, the distance to the best recorded value (the single best point itself is left out and marked instead), each coordinate of the mean, each distribution axis scale and each coordinate standard deviation. Every panel's axes run upwards and span every value drawn in it, and the linear axis is labelled in scientific notation exactly when the options say so. Legend labels, legend colours and captions name the series they stand for, and the image that is saved is the one the panels were drawn on.",
 ['histories', 'configurations', 'inputs'], 'for every recorded history, dimension, mode and option set',
 'Tests only check that drawing returns success for a few histories; nothing looks at what is drawn.',
 ['src/plotting/draw.rs', PM], [('series and axes', 'src/plotting/draw.rs'), ('panels', PM + ' Plot::build_plot')])

prop('C37', 'Nothing panics except the one-call helpers',
 "No operation of the library reaches a panic of its own (an unwrap, expect, assertion, unreachable branch, explicit panic, division by zero, or an index into a history that is still empty), whatever the objective function returns and whatever options were accepted: invalid options, invalid objective values, failed decompositions and failed drawing operations are reported as values, and status lines, accessors, steps, runs and restarts also work when nothing has been evaluated or found yet. Only the one-call helpers panic, for what they document. Restarts are meant over finite search ranges, with runs whose derived options are valid.",
 ['inputs', 'histories', 'configurations', 'fault_sequences'], 'for every history of objective values, every accepted option set and every point in a run at which an operation is called',
 'Tests call operations in usual states; a panic waits for an infinite value, a generation that failed first, an empty history or an unusual option.',
 [L, ST, SA, HI, TE, RM, PM], [('error values instead of panics', 'src')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
