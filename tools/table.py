# One row per property; build_meta.py writes properties.jsonl, MANIFEST.json and the table of DESIGN.md from it.
# (id, title, statement, quantified over, quantifier text, why tests cannot settle it, anchors, oracle, workload)
MC, HM, ME, CO, GE, VA, SI, FI, FT, AS, UT, PL, DE = ['pydtmc/' + f + '.py' for f in ('markov_chain', 'hidden_markov_model', 'measures', 'computations', 'generators', 'validation', 'simulations', 'files_io', 'fitting', 'assessments', 'utilities', 'plotting', 'decorators')]
FEW = 'The suite compares a few fixed chains (at most about ten states) with stored results; '
CH = 'chains of 2 to 70 states of seventeen structural families (dense, sparse, reducible, absorbing, periodic, nearly decomposable, rank one, permutations, models of the literature), with ten styles of labels, built from different numeric containers and queried in random order'

ROWS = [
    ('C01', 'Every constructor, generator and transformation yields a valid model or refuses',
     'Every model returned by a constructor, a generator, a fitting, a conversion or a transformation has finite probabilities between 0 and 1 whose rows sum to 1, at least two states (and symbols), unique non-empty text labels, and the size asked for. Valid arguments are never refused, and a call which cannot produce such a model raises the documented error and returns nothing.',
     ['inputs', 'histories'], 'all valid arguments of all the ways to make a model, and chains of transformations applied to the results', FEW + 'validity has to hold for every parameter, label style and composition of transformations.',
     {MC: ['__init__', 'from_dictionary', 'from_matrix', 'to_nth_order', 'aggregate', 'closest_reversible'], HM: ['__init__', 'fit', 'restrict'], GE: ['mc_* and hmm_* generators'], FT: ['hmm_fit', 'mc_fit_function'], VA: ['validate_transition_matrix', 'validate_labels_input']},
     'an independent validity predicate evaluated on every model seen: shape, finiteness, range, row sums, labels, size, type, and agreement of the accessors with one another',
     'random compositions (histories) of constructors, generators, fits, conversions and up to five transformations with hyperparameters at and between their limits'),
    ('C02', 'Invalid models and arguments are always refused, whoever calls',
     'A matrix which is not square, has fewer than two rows, negative, infinite, not-a-number, complex or non-numeric entries or rows which do not sum to 1, labels which are repeated, blank, not text or too few, out-of-range arguments (states, distributions, steps, weights, seeds and so on) and arguments which contradict each other (overlapping sets of states, names shared by states and symbols, sums of probabilities above 1) are refused with the documented error (the validation error, or a value error where a dictionary or a file has to be taken as a whole). This does not depend on the name or the module of the code of the user which makes the call, on the container which carries the values, or on what was built before; nothing is created or changed by a refused call.',
     ['inputs', 'histories'], 'all invalid models and arguments, in all containers, called from functions with arbitrary names', 'The suite refuses a short list of wrong values, always from a test function; it never varies the caller or the container.',
     {VA: ['validate_transition_matrix', 'validate_emission_matrix', 'validate_labels_input', 'validate_state', 'validate_status', 'validate_distribution'], UT: ['get_caller', 'extract_numeric', 'build_hmm_graph'], MC: ['__init__'], HM: ['__init__']},
     'a generated model or argument is damaged in one known way; the monitor demands a ValidationError (or the documented ValueError) and compares the state of the receiver before and after',
     'every damage kind times container (list, tuple, array, data frame, sparse, subclass), from callers whose names imitate the generators of the library'),
    ('C03', 'Models are immutable and share nothing with the caller',
     'No sequence of calls on a model and no modification of the arguments given to it or of the results returned by it ever changes the model: every later query gives the result it gave at first. Arguments are never altered by a call. Results returned twice are equal but independent.',
     ['histories'], 'all histories of queries, with every argument and every result overwritten in place afterwards', 'The suite never writes into what it receives, so that an exposed cache or a shared array is invisible to it.',
     {DE: ['cached_property', 'aliased'], MC: ['p', 'states', 'pi', 'to_matrix', 'to_dictionary', 'conditional_probabilities', 'cached properties'], HM: ['p', 'e', 'states', 'symbols', 'cached properties'], UT: ['extract_numeric']},
     'a snapshot of every query on a fresh model is compared with the same query on a model which lived through the history; arguments are frozen (deep copies compared) and results are poisoned recursively (arrays, lists, dictionaries, graphs)',
     'random histories of 20 to 60 queries in any order, poisoning every result and argument'),
    ('C04', 'State classes agree with the transition graph',
     'Communicating, recurrent and transient classes and states, absorbing states, and the irreducible, absorbing and canonical flags are the ones the graph of positive transition probabilities defines, for chains of any structure. Queries on single states, by name or by index, agree with the lists, every state belongs to exactly one class, and classes and states are listed by decreasing size, then by their first state.',
     ['inputs'], CH, FEW + 'which graphs are handled right cannot be sampled by hand.',
     {MC: ['communicating_classes', 'recurrent_classes', 'transient_classes', 'absorbing_states', 'is_absorbing', 'is_canonical', 'is_irreducible', 'is_absorbing_state', 'is_recurrent_state', 'is_transient_state']},
     'Warshall closure of the support, classes by mutual reachability, closedness by outgoing edges', 'generated chains queried in random order, results overwritten between queries'),
    ('C05', 'Accessibility, communication and adjacency agree with reachability',
     'A state is accessible from another exactly when a walk of any length with positive probability leads to it; the accessibility, communication and adjacency matrices and the pairwise queries agree on it. This holds however long the shortest walk is, however large or dense the chain is, and however small the positive probabilities are.',
     ['inputs'], CH + '; long paths and dense chains included', FEW + 'long walks and large dense chains (overflows) are out of its reach.',
     {MC: ['accessibility_matrix', 'communication_matrix', 'adjacency_matrix', 'is_accessible', 'are_communicating']},
     'Warshall closure of the support', 'generated chains up to 70 states, path graphs in random order, entries down to 1e-12'),
    ('C06', 'Periods and cyclic classes are the gcd structure of return walks',
     'The period of every recurrent class is the greatest common divisor of the lengths of its cycles and the list of periods follows the order of the communicating classes; the period of the chain and its aperiodicity follow from those of the recurrent classes. Cyclic classes partition the states of an irreducible periodic chain so that every step moves to the next class, and cyclic states agree with them.',
     ['inputs'], 'chains with one to four recurrent classes of periods 1 to 12 plus transient states, in any state order', FEW + 'few are periodic and hardly any is reducible and periodic.',
     {CO: ['_calculate_period', 'calculate_periods', 'find_cyclic_classes'], MC: ['period', 'periods', 'is_aperiodic', 'cyclic_classes', 'cyclic_states', 'is_cyclic_state']},
     'gcd of breadth-first level differences inside each class; cyclic classes checked by definition (every transition leads to the next class)', 'constructed class structures with prescribed periods, permuted'),
    ('C07', 'Stationary distributions are invariant, complete and exact',
     'There is exactly one stationary distribution per recurrent class, each of them is a probability distribution, invariant under a step, positive exactly on its class. It is accurate in the relative sense for nearly decomposable chains with very small probabilities too, and it is the long-run limit of an ergodic chain.',
     ['inputs'], CH + '; entries down to 1e-12', FEW + 'accuracy on badly conditioned chains is not sampled.',
     {CO: ['gth_solve'], MC: ['pi']}, 'exact rational solution (Fractions) for small chains, an independent elimination for others, residuals and long powers', 'generated chains, nearly decomposable ones included'),
    ('C08', 'Structural flags and the textual summary agree with their definitions',
     'The flags for regularity, ergodicity, reversibility, symmetry, double stochasticity and stochastic monotonicity hold exactly when the defining condition on the transition matrix does. The textual summary reports the same facts as the queries it summarises.',
     ['inputs'], CH + '; half of them built to have a feature and then possibly perturbed in one row', FEW + 'each flag is sampled on a handful of chains.',
     {MC: ['is_regular', 'is_ergodic', 'is_reversible', 'is_symmetric', 'is_doubly_stochastic', 'is_stochastically_monotone', '__str__'], HM: ['__str__']},
     'definitions evaluated directly: powers of the support up to the Wielandt bound, Kolmogorov cycles / detailed balance, column sums, cumulated rows', 'feature-preserving constructions with one-row perturbations'),
    ('C09', 'Absorption measures solve the absorption equations',
     "For an absorbing chain the fundamental matrix, the absorption probabilities and the mean absorption times are those of its transient states, in state order (every other chain has none of them), and the sum over all powers of the transient block equals the fundamental matrix. Kemeny's constant is the trace of the fundamental matrix for absorbing chains.",
     ['inputs'], CH + '; two thirds absorbing', FEW + 'mixed orders of transient and absorbing states are rare there.',
     {MC: ['fundamental_matrix', 'kemeny_constant', 'absorption_probabilities', 'mean_absorption_times'], ME: ['mc_absorption_probabilities', 'mc_mean_absorption_times']},
     'independent linear solves and the summed powers of the transient block', 'absorbing chains in any state order with one to several absorbing states'),
    ('C10', 'Hitting probabilities and hitting times are the minimal solutions',
     'For every set of target states the hitting probability of a state is the probability that a walk from it ever reaches the set, and its hitting time the expected number of steps, infinite when the set is missed with positive probability. Both are accurate when hitting takes very long.',
     ['inputs'], 'generated chains and all kinds of target sets, given by name or index, alone or in lists', FEW + 'targets are few and hitting is quick.',
     {ME: ['mc_hitting_probabilities', 'mc_hitting_times'], MC: ['hitting_probabilities', 'hitting_times']},
     'graph reachability splits the states into never/surely/sometimes; linear solve on the rest', 'target sets of all sizes, slow random walks up to 90 states'),
    ('C11', 'Mean first passage and mean recurrence times match their equations',
     'For ergodic chains the mean first passage times to states, to sets and between sets, and the mean recurrence times are the expected numbers of steps of the walks they describe (recurrence times are the reciprocals of the stationary probabilities); for other chains they are not defined and nothing is returned.',
     ['inputs'], 'generated chains, three quarters ergodic, and target and origin sets in several forms', FEW + 'only a few sets are asked for.',
     {ME: ['mc_mean_first_passage_times_to', 'mc_mean_first_passage_times_between', 'mc_mean_recurrence_times'], MC: ['mean_first_passage_times_to', 'mean_first_passage_times_between', 'mean_recurrence_times']},
     'linear systems solved independently, one target set at a time; stationary weights for the origins', 'sets of all sizes, overlapping and not, tiny probabilities'),
    ('C12', 'Mean numbers of visits are finite, null and infinite where they must be',
     'The mean number of visits to a state from another is the expected number of times the walk visits it: infinite exactly when a recurrent state is reached with positive probability, null exactly when the state cannot be reached, finite otherwise.',
     ['inputs'], CH, FEW + 'reducible chains with rarely visited states are not among them.',
     {ME: ['mc_mean_number_visits'], MC: ['mean_number_visits']}, 'class structure plus fundamental matrix of the transient block', 'reducible and absorbing chains with entries down to 1e-12'),
    ('C13', 'First passage probabilities and rewards follow the first-passage recursion',
     'The first passage probabilities over any number of steps are those of reaching the state (or one of the states) for the first time at each step, starting from the given state; the first passage reward is the expected reward collected on the way to a first passage.',
     ['inputs'], 'chains, initial states, 1 to 60 steps, target sets and rewards', FEW + 'they have one number of steps.',
     {ME: ['mc_first_passage_probabilities', 'mc_first_passage_reward'], MC: ['first_passage_probabilities', 'first_passage_reward']},
     'taboo recursion on an independent copy of the matrix', 'random chains, horizons and sets'),
    ('C14', 'Committors and sensitivities match their definitions',
     'The forward (backward) committor of a state is the probability of reaching the second set before the first one (of having left the first set last), 0 and 1 on the sets themselves; the sensitivity of a state is the derivative of its stationary probability with respect to the transition probabilities, so that it predicts the effect of any small admissible perturbation. Chains for which these are not defined give nothing.',
     ['inputs'], 'ergodic and other chains, disjoint sets of states of any size', FEW + 'one pair of sets per chain.',
     {ME: ['mc_committor_probabilities', 'mc_sensitivity'], MC: ['committor_probabilities', 'sensitivity']}, 'linear solves for the chain and its time reversal; exact directional derivatives of the stationary distribution', 'random disjoint sets; random perturbation directions'),
    ('C15', 'Finite-horizon quantities follow the evolution of the distribution',
     'Redistributions, expected rewards, expected transitions, time correlations and time relaxations over any number of steps are those obtained by letting the initial distribution (uniform when absent) evolve one step at a time, whatever the form in which initial states, rewards, sequences and times are given. Time correlations and relaxations are not defined when there are several stationary distributions.',
     ['inputs'], 'chains, distributions or states, horizons up to 80 steps below and above the number of states, rewards, sequences, sets of time points', FEW + 'horizons beyond the number of states take another code path, which it hardly enters.',
     {ME: ['mc_expected_rewards', 'mc_expected_transitions', 'mc_time_correlations', 'mc_time_relaxations'], SI: ['mc_redistribute'], CO: ['rdl_decomposition'], MC: ['redistribute', 'expected_transitions']}, 'step-by-step recursion', 'random horizons around the number of states, unsorted time points with gaps, defective matrices'),
    ('C16', 'Spectral and entropy measures match the spectrum and the stationary process',
     'Rank, determinant, spectral gap, mixing and relaxation rates and implied timescales are those of the eigenvalues of the transition matrix; the entropy rate is the stationary mean of the entropies of the rows, the topological entropy the logarithm of the spectral radius of the adjacency matrix, and the normalised entropy rate their ratio, between 0 and 1. Each of them is absent exactly when it is not defined.',
     ['inputs'], CH, FEW + 'defective, rank-one and periodic spectra are rare there.', {CO: ['slem', 'eigenvalues_sorted'], MC: ['rank', 'determinant', 'spectral_gap', 'mixing_rate', 'relaxation_rate', 'implied_timescales', 'entropy_rate', 'entropy_rate_normalized', 'topological_entropy']},
     'independent eigenvalues, singular values and class-wise Perron roots', 'generated chains queried in random order, twice'),
    ('C17', 'Mixing times are the first time within the cutoff',
     'The mixing time of an ergodic chain from an initial distribution is the first number of steps after which the distance between the evolved and the stationary distribution is within the cutoff asked for; there is none for other chains or when it exceeds the documented limit of iterations.',
     ['inputs'], 'chains slowed down to different degrees, distributions, jumps and cutoffs', FEW + 'few combinations are stored.', {ME: ['mc_mixing_time'], MC: ['mixing_time']}, 'step-by-step distances to an exact stationary distribution', 'lazy, birth-death and dense chains, both cutoffs'),
    ('C18', 'Simulated walks follow the chain and respect their stopping rules',
     'A simulated walk starts in the initial state asked for (any state when absent), only takes transitions of positive probability, has the number of steps asked for unless the final state stops it at its first visit, and its transitions have the frequencies of the transition matrix. A single next state follows the row of the current state, and outputs by index and by name describe the same walk for the same seed.',
     ['inputs', 'histories'], 'all accepted chains (rows summing to 1 only approximately included), walk lengths, starts, stops and seeds', 'A walk of the suite is compared with a stored one for a few seeds, which says nothing about other seeds or about frequencies.',
     {SI: ['mc_simulate'], MC: ['simulate', 'next'], UT: ['create_rng']}, 'an online trace checker (start, allowed transitions, stop rule, length) and goodness-of-fit of the pooled transition counts at significance 1e-10', 'hundreds of thousands of moves over generated chains'),
    ('C19', 'Seeded results are reproducible and isolated',
     'Every seeded operation returns the same result for the same arguments and seed, in the same process, after any other operations, in another process and with another hash seed; it neither reads nor alters the global random generators, and different seeds give different results. Seeds of any accepted integer type are equivalent.',
     ['histories', 'schedules', 'inputs'], 'all seeded operations, seeds, histories between the two calls, processes and hash seeds', 'The suite calls each operation once per seed, in one process, and never looks at the global generators.',
     {UT: ['create_rng'], MC: ['random', 'simulate', 'next', 'dirichlet_process', 'random_distribution'], HM: ['random', 'simulate', 'next']}, 'results of equal calls are compared within the process, across eight worker processes with different hash seeds (agreement log), and the states of the global generators are compared before and after', 'random operations interleaved with other operations and with uses of the global generators'),
    ('C20', 'Predictions and sequence probabilities match the transition matrix',
     'The prediction from a state follows, step after step, the most probable transition, and is absent exactly when some step on the way has no unique most probable transition. The probability of a sequence is the product of its transition probabilities, null exactly when one of them is.',
     ['inputs'], 'chains, states, horizons and observed sequences up to 400 observations', FEW + 'ties and impossible sequences are rare.', {SI: ['mc_predict', 'mc_sequence_probability'], MC: ['predict', 'sequence_probability']}, 'direct recursion and logarithmic sums', 'chains with and without ties; possible and impossible sequences'),
    ('C21', 'Transformations produce the chain they describe',
     'The lazy chain, the n-th order chain, the sub-chain, the canonical form, the bounded chain and the merger of two chains have the transition matrices their definitions prescribe, with the matching labels, for every admissible parameter; the original chain is unchanged. The canonical form is a reordering with transient states first, and a sub-chain keeps the transitions among the states it consists of.',
     ['inputs'], CH + '; all admissible weights, orders (far beyond 10**9), subsets, boundary conditions', FEW + 'one parameter per transformation.', {GE: ['mc_lazy', 'mc_sub', 'mc_canonical', 'mc_bounded'], MC: ['to_lazy_chain', 'to_nth_order', 'to_subchain', 'to_canonical_form', 'to_bounded_chain', 'merge_with']}, 'definitions evaluated on a copy of the matrix', 'random parameters at and between their limits'),
    ('C22', 'Lumping preserves the process and refuses what is not lumpable',
     'A partition is accepted exactly when the chain is ordinarily lumpable with respect to it; the lumped chain has the common block probabilities, and stationary distributions aggregate. Every partition listed as lumpable is accepted, and no lumpable partition is missing from the list.',
     ['inputs'], 'chains of 3 to 9 states and all their partitions; lumpable chains with hidden block structure', FEW + 'it never goes through all the partitions.', {CO: ['find_lumping_partitions'], GE: ['mc_lump'], MC: ['lump', 'lumping_partitions'], VA: ['validate_partitions']}, 'block sums compared row by row over all set partitions', 'planted lumpable chains, perturbed ones, all partitions of small chains'),
    ('C23', 'Aggregations and the closest reversible chain are what they claim to be',
     'An aggregation into s states returns a chain of s states which groups every original state exactly once and whose probabilities are the stationary-weighted block averages, whichever method is used, and it terminates; the bottom-up blocks are those of the greedy spectral refinement of smallest Kullback-Leibler divergence. The closest reversible chain is a reversible chain at the smallest distance in the chosen norm from the original one with the given stationary distribution, equal to it when it is already reversible.',
     ['inputs'], 'ergodic chains, all sizes and methods, weighted and unweighted norms, initial distributions', FEW + 'optimality is never checked.', {GE: ['mc_aggregate_spectral_bottom_up', 'mc_aggregate_spectral_top_down', '_bipartition', 'mc_closest_reversible'], MC: ['aggregate', 'closest_reversible']}, 'search over partitions for the one which reproduces the result, and an independent greedy refinement; feasibility and first-order optimality (projected directions) of the closest reversible chain', 'random, reversible and nearly decomposable chains'),
    ('C24', 'Generated model families match their closed formulas',
     "Gambler's ruin, birth-death, urn, population genetics, approximation (Adda-Cooper, Rouwenhorst, Tauchen, Tauchen-Hussey), Dirichlet, random and identity chains have the transition probabilities of the models they are named after for every admissible parameter; random models respect masks, numbers of zeros and sizes. Inadmissible parameters raise the documented error.",
     ['inputs'], 'all admissible parameters of each generator', FEW + 'a few parameters each.', {GE: ['mc_gamblers_ruin', 'mc_birth_death', 'mc_urn_model', 'mc_population_genetics_model', 'mc_approximation', 'mc_dirichlet_process', 'mc_random', 'hmm_random']}, 'closed formulas and independent quadratures (scipy)', 'random parameters at and between their limits'),
    ('C25', 'Fitting to a sequence yields the estimator it names',
     'The chain fitted by maximum likelihood (with or without Laplace smoothing) or by maximum a posteriori with given hyperparameters maximises the corresponding objective for the observed sequence; states never left get uniform rows; the labels are the possible states in their order. Sequences by name and by index give the same chain.',
     ['inputs'], 'sequences of 2 to 400 observations over 2 to 8 states, hyperparameters', FEW + 'optimality is never checked.', {FT: ['mc_fit_sequence'], MC: ['fit_sequence'], VA: ['validate_sequence']}, 'counts, plus random competitors which must not have a larger objective', 'random sequences of sparse, dense, cyclic and absorbing chains'),
    ('C26', 'Fitting to a function integrates it with the quadrature it names',
     'The chain fitted to a transition function has, for each quadrature, the normalised products of the function values at the nodes of that quadrature on the given interval and its weights; negative values are refused and null rows become uniform. The function is called with the documented arguments.',
     ['inputs'], 'transition functions, six quadratures, intervals, sizes', FEW + 'quadratures are compared with stored numbers.', {FT: ['mc_fit_function'], MC: ['fit_function']}, 'every quadrature rebuilt by another method (moment equations, library nodes, closed formulas) and a log of the calls of the function', 'random smooth, peaked, one-sided and constant functions'),
    ('C27', 'In-memory conversions preserve the model',
     'Converting a chain or a hidden Markov model to a dictionary, a graph or matrices and back yields an equal model with the same labels in the same order; equivalent dictionaries and graphs in another order yield the same process. Matrices and weighted graphs with non-negative values are normalised, rows without weights become uniform, and inconsistent ones are refused.',
     ['inputs', 'histories'], 'models built directly or by transformations, all label styles, permuted graphs, scaled matrices', 'The suite converts its fixed chains only, whose labels are plain.', {MC: ['to_dictionary', 'from_dictionary', 'to_graph', 'from_graph', 'to_matrix', 'from_matrix'], HM: ['to_dictionary', 'from_dictionary', 'to_graph', 'from_graph', 'from_matrices'], UT: ['build_mc_graph', 'build_hmm_graph'], VA: ['validate_dictionary', 'validate_graph']}, 'equality of matrices and labels after the round trip', 'models of all families through every conversion'),
    ('C28', 'Files preserve models, and damaged files are refused',
     'Writing a model to a csv, json, txt or xml file and reading it back yields an equal model with the same labels, whatever text the labels contain that the format can carry, and overwrites what was there; labels which a format cannot carry are refused. A file which is truncated, damaged or defines an invalid model is refused with the documented error instead of yielding a different model, and equivalent files written by other programs are accepted.',
     ['inputs', 'crash_points', 'fault_sequences'], 'models, labels, formats, all truncation points, byte-level damage, independently written files', 'The suite reads stored good files and round-trips plain labels; it never truncates or damages one.', {FI: ['read_csv', 'read_json', 'read_txt', 'read_xml', 'write_csv', 'write_json', 'write_txt', 'write_xml'], MC: ['to_file', 'from_file'], HM: ['to_file', 'from_file'], VA: ['validate_file_path']}, 'equality after the round trip; every prefix and every damaged copy must be refused or define the same model', 'hostile labels (quotes, delimiters, line ends, markup, control and non-ASCII characters), all prefixes of small files'),
    ('C29', 'Decoding returns the filtered and smoothed probabilities',
     'Decoding a sequence of symbols returns its log probability and the forward, backward and posterior probabilities of the states at each time, consistent with one another and with the initial status given, with or without scaling. A sequence which the model cannot produce is reported as such and never as numbers that are not probabilities.',
     ['inputs'], 'models, initial statuses, possible and impossible sequences of up to hundreds of symbols', 'The suite decodes two or three stored sequences.', {ME: ['hmm_decode'], HM: ['decode']}, 'enumeration of all the paths for short sequences, an independent normalised filter and smoother for long ones', 'random models with sparse matrices, all initial status forms'),
    ('C30', 'Hidden-state prediction returns the best states or path',
     'The maximum-a-posteriori prediction returns at each time a state of the largest posterior probability; the most-likely-path (Viterbi) prediction returns a path whose joint probability with the symbols no other path exceeds, with its log probability. Impossible sequences have no prediction, and outputs by index and by name agree.',
     ['inputs'], 'models, initial statuses and sequences', 'The suite predicts two or three stored sequences.', {SI: ['hmm_predict'], HM: ['predict']}, 'enumeration of the paths, an independent dynamic programme in logarithms for longer sequences', 'random models with sparse matrices'),
    ('C31', 'Hidden Markov fitting improves the likelihood and counts correctly',
     'Estimation from labelled sequences returns the relative frequencies of the observed transitions and emissions. Fitting by Baum-Welch returns a fixed point which is at least as likely as the guess and keeps null probabilities null; fitting by decoding returns a fixed point of its own iteration; no convergence or null rows raise the documented error, which is raised for no other reason.',
     ['inputs'], 'guesses, one or several observed sequences, labelled sequences', 'The suite fits a few stored sequences and compares numbers.', {FT: ['hmm_fit'], GE: ['hmm_estimate'], HM: ['fit', 'estimate']}, 'one independent expectation-maximisation (or decoding) step at the result, likelihoods before and after, and an independent replay of the whole iteration from the guess (for refusals too)', 'random guesses with zeros, sequences produced by other models'),
    ('C32', 'Hidden Markov walks, restrictions and elementary queries follow the model',
     'A simulated walk of states and symbols starts where it is asked to, has one symbol per state, only takes transitions and emissions of positive probability with the frequencies of the model, and stops at the first visit of the final state or symbol; a single next step follows the same law. Restriction keeps the chosen states and symbols with renormalised probabilities; probabilities, sizes and the ergodic and regular flags agree with the matrices.',
     ['inputs'], 'models, starts, stops, seeds, subsets of states and symbols', 'A walk of the suite is compared with a stored one for a few seeds.', {SI: ['hmm_simulate'], GE: ['hmm_restrict'], HM: ['simulate', 'next', 'restrict', 'emission_probability', 'transition_probability', 'is_ergodic', 'is_regular']}, 'online trace checker and goodness-of-fit at significance 1e-10', 'random models; pooled counts'),
    ('C33', 'Equality and hashing are consistent for all models',
     'Models are equal exactly when their probabilities and labels agree, equality is an equivalence, equal models have equal hashes (signed zeros and numeric containers do not matter), and comparisons with other objects are false and never fail. Copies and pickles are equal to the original and independent of it, so that models work as members of sets and keys of dictionaries.',
     ['inputs', 'histories'], 'pairs of equal, nearly equal and different models and other objects, whatever was computed on them before', 'The suite compares a few pairs, never through sets, copies or pickles, and never with other objects.', {MC: ['__eq__', '__hash__'], HM: ['__eq__', '__hash__'], 'pydtmc/base_classes.py': ['Model']}, 'an equality oracle on matrices and labels, algebraic laws on triples, set and dictionary behaviour', 'one-entry perturbations, swapped labels, permuted copies, copies after cached queries'),
    ('C34', 'Alias names agree with originals, and properties are computed once under threads',
     'Every documented short name or alias of a query returns what the query it stands for returns, for the same arguments. Queries made by several threads at the same time return what a single thread gets, in any interleaving and whoever comes first, and a repeated query of a cached property by its own name does not compute it again.',
     ['schedules', 'inputs'], 'all alias pairs, all cached properties, injected delays inside the computation with two to eight threads', 'The suite is single-threaded and calls no alias.', {DE: ['cached_property', 'alias', 'aliased', 'object_mark'], 'pydtmc/base_classes.py': ['Model']}, 'differences between alias and original; an event log of executions of property bodies (interpreter monitoring events) compared with the number of first queries, and results across threads compared with a fresh model', 'barrier-started threads, delays injected at function entry, random orders'),
    ('C35', 'Statistical assessments compute the tests they name',
     'The first-order, homogeneity, Markov-property, stationarity and theoretical-compatibility assessments return the statistic, the p-value and the decision (rejected, not rejected or undecidable) of the test they name for the observed sequences; the significance only affects the decision. Results do not depend on the labels of the states or on their order.',
     ['inputs'], 'sequences of chains, relabelled, in several blocks, with several significances', 'The suite has a few stored sequences with stored statistics.', {AS: ['assess_first_order', 'assess_homogeneity', 'assess_markov_property', 'assess_stationarity', 'assess_theoretical_compatibility'], CO: ['chi2_contingency']}, 'statistics recomputed from counts with exact rationals for block limits, p-values from the incomplete gamma function', 'generated sequences of 3 to several hundred observations'),
    ('C36', 'Results do not depend on the order and the names of the states',
     'Renaming the states, or permuting them together with the matrix and the arguments, renames or permutes every result accordingly and changes nothing else. States given by name and by index are interchangeable everywhere, also when names look like numbers.',
     ['inputs'], 'all deterministic queries and transformations of the two model types, all permutations and label styles', 'The suite never compares a chain with a permuted or renamed copy of itself.', {VA: ['validate_state', 'validate_states', 'validate_status', 'validate_sequence', 'validate_partitions'], MC: ['all queries'], HM: ['all queries']}, 'metamorphic: the result on the permuted or renamed model mapped back equals the result on the original', 'random permutations and label styles (digits, unicode, case variants) over the whole interface'),
    ('C37', 'Plots show the data of the model and leave no trace',
     'Every plot shows the data of the models it is given (bars, cells, points, nodes, edges and labels agree with the matrices, eigenvalues, distributions, walks, or forward and backward probabilities of the simulated symbols) in the configuration asked for, with nothing cut off, whatever the labels are. Plotting changes neither the model nor the arguments nor the global settings of the plotting library, and leaves no figure open which it does not return.',
     ['inputs', 'configurations'], 'all plotting functions, options, models and seeds', 'The suite only checks that plotting does not raise.', {PL: ['plot_comparison', 'plot_eigenvalues', 'plot_flow', 'plot_graph', 'plot_redistributions', 'plot_sequence', 'plot_trellis']}, 'inspection of the artists of the returned figure against the data of the model, and comparison of settings, figures and model before and after', 'random models and options with an off-screen renderer'),
    ('C38', 'Calls either return or raise the documented errors',
     'For arguments of any type and value a public call returns a result or raises one of the documented errors (the validation error or a value error with a message), never an internal error of another type, and it always terminates. After a refused call the model answers every query as before.',
     ['inputs', 'histories'], 'every public callable with arguments of all types: numbers at and beyond limits, texts, containers nested and empty, models, none; transition functions of the user which fail with any kind of error; files of any text', 'The suite gives a list of wrong values to some parameters only.', {VA: ['all validators'], 'pydtmc/exceptions.py': ['ValidationError'], UT: ['create_validation_error']}, 'the type of the outcome of every call, with a time limit, plus a snapshot of the model before and after', 'fuzzing of every parameter of every public callable with hostile values'),
]
