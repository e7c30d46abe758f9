"""Single source of properties.jsonl, MANIFEST.json and the DESIGN.md table."""

def P(ident, title, statement, over, text, why, files, mech, design,
      level_note, observe=(), state=(), technique=None, na=None):
    return dict(id=ident, title=title, statement=statement, over=over,
                text=text, why=why, files=files, mech=mech, design=design,
                level_note=level_note, observe=list(observe),
                state=list(state), technique=technique, na=na)

HIT = 'xboa/hit/_hit.py'
BUNCH = 'xboa/bunch/_bunch.py'
COMMON = 'xboa/common/_common.py'

PROPS = [
P('P01', 'A hit returns exactly what was stored and derives the rest by definition',
  'Writing any writable variable of a hit with any number it can represent and reading it back gives exactly that number, under every alias, and changes no other stored variable. '
  'Every derived quantity (total and transverse momentum, radius, angles, divergences, kinetic energy, angular momentum, spin, ct, weight) always equals its defining formula on the current data, and writing one keeps the quantities it promises to keep. '
  'An unknown variable or an unusable value is refused with an error and leaves the hit exactly as it was.',
  ['histories', 'inputs'], 'all histories of accepted and refused writes, over all variables, aliases and finite values including huge, tiny, signed-zero, boundary and overflowing integers',
  'Tests write a few literals per variable once; they never interleave refused writes with reads of the whole hit, nor reach boundary values.',
  [HIT, 'xboa/core/pylib/PyHitcore.cc', 'xboa/core/cpplib/Hitcore.hh', 'xboa/core/cpplib/Hitcore.cc'],
  [('typed accessor tables', 'xboa/core/cpplib/Hitcore.cc:initialise_string_to_accessor_maps'), ('derived getters and setters', HIT+':get_p..set_tP')],
  'History + executable model: random operation histories on a hit are compared step by step, full state, against a dictionary model; derived reads are judged against independently coded formulas; refused writes must raise and leave the state bit-identical.',
  'Held on the histories executed; comparisons are exact for stored data and 1e-11 relative for derived data.'),
P('P02', 'Mass-shell forcing and the hit consistency check are exact',
  'After a hit is put on the mass shell through total momentum, one momentum component or the energy, E^2 = p^2 + m^2 holds and nothing but the named quantity has changed (total momentum keeps its direction, a solved component is the positive root). '
  'When no real solution exists the named quantity becomes zero and failure is reported, without an error and without storing anything that is not a finite real number. '
  'The consistency check accepts hits whose mass matches their species and whose energy, momentum and mass agree, and rejects hits that break either.',
  ['inputs'], 'all hits, on and off shell, of every known species and all mass-shell variables, including unreachable shells and zero momentum',
  'Tests use one muon and benign numbers; the unsolvable branch for total momentum was never executed.',
  [HIT], [('solving E^2=p^2+m^2', HIT+':mass_shell_condition'), ('consistency', HIT+':check')],
  'Generated hits (light, heavy, massless, off shell, zero momentum) with the invariant recomputed independently after each forcing; return values, untouched variables and check() verdicts judged well away from its documented tolerance.',
  'Held on the inputs executed.'),
P('P03', 'Copies and serialised forms are faithful and independent',
  'A deep copy, a dictionary rebuild, an evaluated printed form and a pickled-and-restored form of a hit, and a deep copy or evaluated printed form of a bunch, each carry all stored data of the original and compare equal to it. '
  'Changing either side afterwards never changes the other, whereas a shallow copy shares its data. '
  'Equality is an equivalence on data that detects a change of any single variable or of the order or number of hits.',
  ['inputs', 'histories'], 'all hits and bunches with any data, and all later mutations of the original or the copy',
  'Tests copy one hit and compare it once; nothing mutates copies afterwards or detects a single dropped variable.',
  [HIT, BUNCH], [('hit serialisation', HIT+':dict_from_hit, __getstate__, __setstate__, __repr__'), ('bunch copy', BUNCH+':__deepcopy__, __repr__, __eq__')],
  'Each copy mechanism is applied to generated hits and bunches; variable-by-variable state of both sides is recorded before and after mutating one side; every single-variable change must break equality.',
  'Held on the objects and mutations executed.'),
P('P04', 'Translations and linear maps act on every hit exactly as written',
  'Translating a hit or a bunch adds exactly the given offsets, and an affine map about an origin gives R(v-o)+o+t for the listed variables of every hit, after which only the variable chosen for the mass shell differs. '
  'Applied to a bunch, the means and covariances transform by the same law, and the inverse map restores the original bunch. '
  'The maps act on all hits of the bunch once each and on no other data.',
  ['inputs'], 'all bunches, variable lists, matrices, origins, offsets and mass-shell choices',
  'Tests apply single hand-made maps; laws over all matrices, origins and sizes are not sampled, and the bunch versions are never run by a reliable test.',
  [HIT, BUNCH], [('affine map', HIT+':abelian_transformation, translate'), ('bunch maps', BUNCH+':abelian_transformation, translate')],
  'Metamorphic and reference oracle: outputs recomputed with numpy hit by hit, plus covariance law, composition and inverse.',
  'Held on the maps executed, at 1e-9 relative.'),
P('P05', 'A global weight belongs to a particle and multiplies into every total weight',
  'Setting the global weight through any hit sets it for all hits, existing or created later, with the same spill, event and particle numbers and for no other hit; unset global weights are one. '
  'The total weight of a hit is always its local times its global weight, following changes of either or of its identifying numbers, and bunch statistics use that total weight. '
  'Clearing global or local weights resets exactly those weights to one.',
  ['histories'], 'all interleavings of creating hits, changing identifiers, setting and clearing weights, over identifiers that collide in some but not all of spill, event and particle',
  'Tests set one weight on one hit; no test distinguishes permuted identifiers or later-created hits.',
  ['xboa/core/cpplib/WeightContext.cc', 'xboa/core/cpplib/Hitcore.hh', 'xboa/core/pylib/PyHitcore.cc', HIT, BUNCH],
  [('per-particle weight table', 'xboa/core/cpplib/WeightContext.cc'), ('total weight', 'xboa/core/cpplib/Hitcore.hh:total_weight')],
  'History + executable model: a dictionary keyed by (spill, event, particle) shadows every operation; identifiers are drawn from a tiny range so that permutations collide; all hits and the bunch weight are re-read after every step.',
  'Held on the histories executed.'),
P('P06', 'Weight contexts obey their algebra and swap in and out without loss',
  'Arithmetic and logical combinations of weight contexts with each other and with numbers give, for every particle, the value that the operation gives on the two individual weights, defaults included, and never change their operands unless the operation is an in-place one. '
  'Making a context current makes every hit and every bunch statistic use exactly its weights, and restoring an earlier context restores the earlier weights. '
  'Two weightings held in different contexts never leak into each other.',
  ['histories', 'inputs'], 'all expressions over contexts with overlapping and disjoint particles and defaults, and all sequences of switching contexts',
  'Tests check a few operators on one or two particles and never switch the context while statistics are taken.',
  ['xboa/core/cpplib/WeightContext.hpp', 'xboa/core/cpplib/WeightContext.cc', 'xboa/core/pylib/PyWeightContext.cc', 'xboa/core/pylib/PyHitcore.cc'],
  [('element-wise operators', 'xboa/core/pylib/PyWeightContext.cc'), ('current context', 'xboa/core/pylib/PyHitcore.cc:setWeightContext')],
  'Model-based: a dict-with-default model mirrors every context in random operator histories; current-context switches are interleaved with hit and bunch reads.',
  'Held on the histories executed.'),
P('P07', 'A bunch is a faithful list of its hits under every mutation',
  'After any history of appends, assignments (including negative and slice indices), deletions, removals, splits and copies, a bunch holds exactly the hits that a plain list given the same operations would hold, in the same order. '
  'Length, iteration, indexing, selection and every statistic always refer to those same hits, so the list view and the numerical view never disagree. '
  'An invalid operation is refused and leaves the bunch unchanged.',
  ['histories'], 'all histories of container operations on bunches, with shared and distinct hits',
  'Tests perform single operations on tiny bunches and compare the list view only.',
  [BUNCH, 'xboa/core/cpplib/Bunchcore.cc', 'xboa/core/pylib/PyBunchcore.cc'],
  [('two parallel stores', BUNCH+':__hits and __bunchcore'), ('native container', 'xboa/core/cpplib/Bunchcore.cc')],
  'History + executable model: a plain list is driven by the same operations; after each step identity of the listed hits, and total weight, means and moments computed by the bunch, are compared with values recomputed from the model list.',
  'Held on the histories executed.',
  state=[('list store', 'python list of hits', BUNCH), ('native store', 'vector of shared hit data used by statistics', 'xboa/core/cpplib/Bunchcore.hh')]),
P('P08', 'Weighted moments, means and covariances equal their definitions',
  'For every bunch and choice of variables, the bunch weight, mean, raw and central moment of any order, standard deviation, covariance matrix and moment tensor equal the weighted sums that define them, about the bunch mean unless a mean is given. '
  'Covariance matrices are symmetric and positive semi-definite, hits with zero weight contribute nothing, scaling all weights or permuting hits changes nothing, and results agree between the native and the interpreted implementation. '
  'A bunch without weight is reported as such rather than given a made-up statistic.',
  ['inputs'], 'all bunches, weights, variables (stored and derived), moment orders and mean offsets, partial or complete',
  'The bunch test module is not among the reliable tests; native tests use a handful of hits of unit weight and complete mean dictionaries.',
  [BUNCH, 'xboa/core/cpplib/Bunchcore.cc', 'xboa/core/pylib/PyBunchcore.cc'],
  [('moment sums', 'xboa/core/cpplib/Bunchcore.cc:get_moment'), ('covariances', BUNCH+':covariance_matrix, moment, mean, standard_deviation')],
  'Reference oracle in exact-order float sums and metamorphic relations over generated bunches.',
  'Held on the inputs executed, at relative tolerances scaled to the summed magnitudes.'),
P('P09', 'Emittance and Twiss quantities equal their definitions on any beam',
  'Emittance, beta, alpha, gamma, dispersion, canonical angular momentum and single-particle amplitude computed from a bunch equal the definitions in terms of its covariance matrix, for every choice of axes. '
  'Beta*gamma - alpha^2 is one in each plane, emittances are invariant under drifts, rotations and reordering and scale as the beam does, and the average amplitude of n axes is 2n times the emittance. '
  'A matched beam generated from chosen optical functions measures back those functions.',
  ['inputs'], 'all bunches with non-degenerate covariance in one to three planes, all axes, geometric and normalised conventions',
  'No reliable test executes the bunch optics at all.',
  [BUNCH], [('optics', BUNCH+':get_emittance, get_beta, get_alpha, get_gamma, get_dispersion, get_kinetic_angular_momentum, get_amplitude')],
  'Reference oracle (numpy determinant and inverse of independently accumulated covariances) plus metamorphic relations.',
  'Held on the inputs executed.'),
P('P10', 'Stored covariances and the geometric convention are honoured everywhere',
  'Computing optics from a stored covariance matrix and means gives the same numbers as computing them from the hits they came from, for every covariance a caller sets, in whole or in part. '
  'A per-call choice between geometric and normalised convention gives the same number as setting the convention globally, and never outlives the call. '
  'Clearing or changing the stored values takes effect on the next query.',
  ['histories', 'configurations'], 'all histories of setting, clearing and querying stored covariances, means and conventions',
  'No reliable test sets a covariance or a convention and then queries optics.',
  [BUNCH], [('stored covariances', BUNCH+':set_covariance_matrix, covariances_set, moment'), ('convention', BUNCH+':set_geometric_momentum')],
  'Differential: the same query by two routes must agree, in random histories of set, clear and query.',
  'Held on the histories executed.'),
P('P11', 'Normalising and periodic transformations do what they promise',
  'The map that turns a beam into one of given covariance has unit determinant in the transformed variables and produces a beam whose covariance is the requested one up to overall scale, about the given origin. '
  'The period transformation moves every value of the chosen variable, shifted by the given offset, by a whole number of periods into the one period around zero, leaves every other variable alone, and changes nothing more when applied again. '
  'Both act on every hit once and keep the hits, their order and their weights.',
  ['inputs'], 'all non-degenerate beams, target covariances and origins, all frequencies, offsets and values, near and far from zero',
  'No reliable test calls either.',
  [BUNCH], [('matching', BUNCH+':transform_to'), ('folding', BUNCH+':period_transformation')],
  'Metamorphic relations on covariances recomputed before and after, and a direct folding oracle away from period boundaries.',
  'Held on the inputs executed.'),
P('P12', 'Cuts zero exactly the weights they should and nothing else',
  'A cut on a variable sets to zero exactly the weights (local or global as asked) of the hits whose value compares true against the cut, leaves every other weight and every other variable untouched, and applies the same rule for every comparison. '
  'A sigma cut compares with the stated number of standard deviations of that variable as they are at the time, and a transmission cut keeps exactly the particles that also appear in the target bunch.',
  ['inputs', 'histories'], 'all bunches, variables (stored, derived, bunch-dependent such as amplitude), comparators, thresholds including values equal to data, and sequences of cuts',
  'One reliable test checks one boundary comparison.',
  [BUNCH], [('cut', BUNCH+':cut, transmission_cut, conditional_remove')],
  'The set of zeroed hits is predicted from values recorded before the cut; all other data compared bit for bit.',
  'Held on the inputs executed.'),
P('P13', 'Splitting, grouping and selecting partition the hits',
  'Splitting a bunch by a variable puts every hit in exactly one group, keyed by the integer part of its value, in original order; selecting hits by value or by condition returns exactly the matching hits. '
  'Lists of values taken from a bunch or from a family of bunches are in hit order with the requested units applied to the right variable, and one-value-per-bunch lists match each bunch asked on its own.',
  ['inputs'], 'all bunches, grouping variables, values and unit choices',
  'No reliable test runs any of these.',
  [BUNCH], [('grouping', BUNCH+':split, get_hits, list_get_hit_variable, list_get')],
  'Conservation (every hit exactly once) and order judged by identity of hits.',
  'Held on the inputs executed.'),
P('P14', 'Histograms conserve weight and bin edges bound their content',
  'A one- or two-dimensional histogram of a bunch puts each hit within range in exactly one bin, the one whose edges contain its value in the requested units, with its weight; the sum of bins is the weight in range. '
  'Automatic binning produces ascending, evenly spaced edges that cover all data, and explicit limits and bin numbers are honoured in the units the caller uses.',
  ['inputs'], 'all bunches, variables, units, limits and bin numbers',
  'No reliable test calls the bunch histogram.',
  [BUNCH, COMMON], [('binning', BUNCH+':histogram, histogram_var_bins'), ('edges', COMMON+':get_bin_edges, n_bins')],
  'Independent re-binning oracle avoiding values that sit on an edge within rounding.',
  'Held on the inputs executed.'),
P('P15', 'Queries, plots and writes do not change what they look at',
  'Taking any statistic, list, histogram, plot, printed form or file of a bunch leaves every hit of it, its order, its weights, its stored covariances and the caller\'s argument objects exactly as they were. '
  'Repeating a query gives the same answer, whatever queries ran in between.',
  ['histories'], 'all histories of read-only operations, in any order, on any bunch and argument objects',
  'Tests look at return values, not at the inputs afterwards.',
  [BUNCH, HIT, COMMON], [('read-only operations', BUNCH+':get, list_get, histogram, hit_write_*'), ('plot helpers', COMMON+':make_matplot_*')],
  'Invariant monitor: full snapshot (every variable of every hit, order, weights, argument deep copies) before and after every read-only operation in random sequences.',
  'Held on the histories executed.'),
P('P16', 'Writing and reading a built-in file format preserves every hit',
  'Every hit written in any built-in text format is read back with every variable that the format carries equal to the original, and units, species codes and mass handled consistently, whichever length unit is selected. '
  'The reader recovers all hits, once each, grouped and ordered as documented, with energy consistent with momentum and mass. '
  'Writing does not alter the hits.',
  ['inputs', 'configurations'], 'all bunches of species the format can express, all formats and length units, and files with headers and comments as the format writes them',
  'Reliable tests read one hit from fixed sample lines.',
  [HIT, BUNCH, 'xboa/hit/factory/_builtin_hit_factory.py', 'xboa/hit/factory/_line_factory_base.py'],
  [('writer', HIT+':write_builtin_formatted, write_list_builtin_formatted'), ('reader', 'xboa/hit/factory/_builtin_hit_factory.py'), ('bunch level', BUNCH+':hit_write_builtin, new_from_read_builtin')],
  'Round-trip with the original values as oracle, matched by unique event and particle numbers, and independently parsed file columns.',
  'Held on the files produced.'),
P('P17', 'User-defined column formats round-trip with the units the caller chose',
  'A bunch written with any list of columns, units and whitespace separator and read back with the same list and units gives the same values for those columns and the same number of hits in the same order. '
  'The numbers in the file are the values divided by the chosen units, and the mass-shell choice on reading is applied to every hit.',
  ['inputs', 'configurations'], 'all column lists, unit assignments, separators and bunches',
  'Reliable tests use one list of columns.',
  [HIT, BUNCH, 'xboa/hit/factory/_user_hit_factory.py'],
  [('writer', HIT+':write_user_formatted'), ('reader', 'xboa/hit/factory/_user_hit_factory.py')],
  'Round-trip plus independent parse of the file text.', 'Held on the files produced.'),
P('P18', 'Loading takes exactly the well-formed hits, up to the limit, in order',
  'Loading a file (built-in, user-defined or OPAL loss file) skips header, comment and malformed lines and keeps every well-formed hit, in file order, without losing or duplicating any, wherever the bad lines fall. '
  'A limit on the number of hits, a filter function, a set of files or stations given by pattern, and grouping into bunches by station each select exactly the hits they describe.',
  ['inputs', 'fault_sequences'], 'all placements of malformed, truncated, blank and comment lines in files of any format, all limits, filters and file sets',
  'Tests read clean sample files once.',
  ['xboa/hit/factory/_line_factory_base.py', 'xboa/hit/factory/_builtin_hit_factory.py', 'xboa/hit/factory/_user_hit_factory.py', BUNCH],
  [('line reader', 'xboa/hit/factory/_line_factory_base.py'), ('loading loop', BUNCH+':new_list_from_read_builtin, new_from_read_builtin, new_dict_from_read_builtin')],
  'Fault injection: bad lines injected at generated positions; the loaded hits are compared with the list of good lines by unique identifiers.',
  'Held on the files produced.'),
P('P19', 'MAUS spill documents carry every hit into the right place',
  'Converting hits to the spill document structure puts each hit exactly once under its event and particle, with all its data in the named fields, and the written file holds one complete document per spill. '
  'Reading documents of that structure yields exactly their hits with the same data.',
  ['inputs'], 'all bunches with any pattern of events, particles and stations',
  'Tests convert two hits.',
  [HIT, 'xboa/hit/factory/_maus_json_hit_factory.py'],
  [('document builder', HIT+':get_maus_tree, get_maus_dict'), ('reader', 'xboa/hit/factory/_maus_json_hit_factory.py')],
  'Conservation and field-by-field comparison through the written text.', 'Held on the documents produced.'),
P('P20', 'The native core never touches memory it does not own',
  'No sequence of calls through the public interface of the native core, with valid or invalid arguments, reads or writes outside an object, uses freed memory, or executes undefined behaviour. '
  'Every failing call reports an ordinary error.',
  ['histories', 'inputs'], 'all call histories on hits, bunches and weight contexts, including wrong types, wrong counts, out-of-range indices, re-initialisation, self-assignment and objects whose conversion functions raise or re-enter',
  'A test that passes says nothing about out-of-bounds access or undefined behaviour it happened to survive.',
  ['xboa/core/pylib/PyHitcore.cc', 'xboa/core/pylib/PyBunchcore.cc', 'xboa/core/pylib/PyWeightContext.cc', 'xboa/core/utils/TypeConversions.cc', 'xboa/core/utils/TypeConversions-inl.hh', 'xboa/core/cpplib/Bunchcore.cc', 'xboa/core/utils/SmartPointer.hh'],
  [('bindings', 'xboa/core/pylib/'), ('shared ownership', 'xboa/core/utils/SmartPointer.hh')],
  'The extension modules are rebuilt with AddressSanitizer and UndefinedBehaviorSanitizer and driven with hostile random call histories under PYTHONMALLOC=malloc; any sanitizer report or native crash is a violation.',
  'No report on the executions made; red-zone sanitizers miss intra-object and far out-of-bounds accesses.',
  technique='runtime monitoring: ASan+UBSan build of the native core under hostile call histories'),
P('P21', 'Native objects are released exactly once and calls do not leak',
  'Shared hit data lives as long as some hit or bunch refers to it and is released when the last reference goes, whichever object dies first. '
  'Calls to the native core, successful or failing, leave the reference counts of their arguments and of shared objects unchanged and their memory use bounded under repetition.',
  ['histories'], 'all orders of creating, sharing, storing, replacing and destroying hits and bunches, and all repetitions of successful and failing calls',
  'Tests neither count references nor repeat calls.',
  ['xboa/core/utils/SmartPointer.hh', 'xboa/core/utils/TypeConversions-inl.hh', 'xboa/core/pylib/PyBunchcore.cc', 'xboa/core/pylib/PyHitcore.cc', 'xboa/core/pylib/PyWeightContext.cc'],
  [('reference map', 'xboa/core/utils/SmartPointer.hh'), ('reference counting', 'xboa/core/pylib/')],
  'Conservation monitor: the native reference table and interpreter reference counts are compared with a model of who holds what, and repeated calls are watched with allocation counters.',
  'Held on the histories executed.'),
P('P22', 'Generated beam ellipses, shells and grids have the optics they were asked for',
  'Covariance matrices built from optical functions are symmetric, have the requested emittance, beta and alpha in each plane, and read back the same through the optics queries. '
  'Shells and grids of hits built from a covariance lie on the requested amplitude or lattice about the reference with the requested count, satisfy the mass shell and carry the reference data.',
  ['inputs'], 'all physical optical functions, solenoid fields, references, shell sizes and grid dimensions',
  'No reliable test builds an ellipse and measures it.',
  [BUNCH, COMMON], [('builders', BUNCH+':build_penn_ellipse, build_ellipse_2d, build_MR_ellipse, new_hit_shell'), ('shell', COMMON+':make_shell')],
  'Definitions recomputed from the arguments, and round trip through the optics queries.', 'Held on the inputs executed.'),
P('P23', 'Numeric and text helpers meet their contracts on all inputs',
  'Ranges, sorts on several lists, bin edges, bin counts, root finding, text substitution, goodness-of-fit distance, physical constant and particle tables each satisfy their documented contract on every input and leave the caller\'s data alone where they promise a new value. '
  'The particle tables are mutually consistent and inverse to each other where both directions exist, and derived units are consistent with each other.',
  ['inputs'], 'all lists, weights, comparators, margins, functions with a root and tables entries',
  'Tests sample one or two literals each.',
  [COMMON, 'xboa/common/utils.py'], [('helpers', COMMON)],
  'Contract oracles (sortedness, permutation, coverage, residual below tolerance, table inversion) on generated inputs.', 'Held on the inputs executed.'),
P('P24', 'Parallel job lists return every result once, in order, and survive failures',
  'Running a list of jobs over any number of worker processes returns exactly one result per job, in job order, each equal to calling the function directly, whatever the durations, using at once as many processes as asked and never more. '
  'A job that raises anything is reported in place without losing, duplicating or delaying past completion the others, and no worker process is left behind; single subprocesses run their call once and end with the program or when told to.',
  ['schedules', 'fault_sequences'], 'all job counts, worker counts, duration patterns and failing jobs',
  'Tests run one small list without failures or delays.',
  [COMMON], [('process queue', COMMON+':process_list, subprocess')],
  'Event log: jobs append unique records to a log file under injected delays and failures; exactly-once and order judged off line; surviving children counted.', 'Held on the schedules executed.'),
P('P25', 'Multi-process tracking returns every particle once, in order, despite faults',
  'Tracking many particles over several processes gives, for each input in order, the same trajectory as tracking it alone, for every number of processes and chunking. '
  'A process that fails, is killed or still runs leaves out exactly the results of its own share of the particles and shows it in its state and exit code; the output of an earlier run or a half-written one is never taken for a result. '
  'Waiting with a time limit comes back at the limit, and a killed process is gone.',
  ['schedules', 'fault_sequences', 'crash_points'], 'all list lengths, process counts, delays, failing particles and killed workers',
  'Tests track one list without faults and the process-pool tests are not reliable.',
  ['xboa/tracking/_multitrack.py', 'xboa/tracking/tracking_process/_tracking_process.py', 'xboa/tracking/tracking_process/_this_node_process.py', 'xboa/tracking/_timeout_tracking.py', 'xboa/tracking/tracking_process/xboa_tracking_process.py'],
  [('chunking', 'xboa/tracking/_multitrack.py'), ('process protocol', 'xboa/tracking/tracking_process/')],
  'Event log of which process tracked which uniquely numbered particle, under injected delays, exceptions and kills.', 'Held on the schedules executed.'),
P('P26', 'Matrix tracking is the affine map it was given, segment by segment',
  'Tracking a hit through a list of matrices and offsets returns a copy of the start followed by one hit per matrix, each the given map of the start about the given offsets, put on the mass shell through pz and with every other variable carried over, for one hit or many. '
  'Tracking through two sections in turn equals tracking through their product, the inverse section restores the start, unusable matrices are refused, and inputs are never modified.',
  ['inputs'], 'all hits, segment lists, matrices, offsets and lengths',
  'Tests use two fixed matrices.',
  ['xboa/tracking/_matrix_tracking.py'], [('map application', 'xboa/tracking/_matrix_tracking.py')],
  'Independent numpy propagation, and composition law.', 'Held on the inputs executed.'),
P('P27', 'The closed-orbit finder returns a true fixed point or says it did not',
  'For a stable linear or mildly nonlinear ring, every orbit the finder reports as converged is a fixed point of the tracking it was given within its tolerance, found from any reasonable seed and with the ellipse that the ring preserves. '
  'It never modifies the seed, respects its iteration limit and, when it cannot go on, raises a RuntimeError or ValueError.',
  ['inputs', 'histories'], 'all stable one-turn maps, offsets, seeds and iteration limits',
  'Tests check construction only.',
  ['xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py'], [('ellipse iteration', 'xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py')],
  'Generated stable maps with known fixed points and invariants; result judged by tracking it once more.', 'Held on the maps executed.'),
P('P28', 'Tune finders recover the tune of any clean oscillation',
  'For a sampled oscillation of any tune, phase and amplitude the finders report that fractional tune (up to the aliasing any turn-by-turn measurement has) within their resolution, independently of offset and amplitude. '
  'Repeating a measurement on the same data gives the same answer and leaves the data alone.',
  ['inputs', 'histories'], 'all tunes, phases, amplitudes, ellipse shapes, lengths and repeated calls',
  'Tests use one tune each.',
  ['xboa/algorithms/tune/_fft_tune.py', 'xboa/algorithms/tune/_dphi_tune.py'], [('fft', 'xboa/algorithms/tune/_fft_tune.py'), ('phase advance', 'xboa/algorithms/tune/_dphi_tune.py')],
  'Synthetic signals of known tune.', 'Held on the signals executed.'),
P('P29', 'Peak finders report exactly the peaks that are there',
  'On any signal, every index reported as a peak is a local maximum in the finder\'s documented sense and every such maximum above its thresholds is reported once, in order. '
  'Refinement moves each reported peak to the true maximum of a smooth peak, and the signal is never modified.',
  ['inputs'], 'all signals, including plateaus, noise, edges and short data, and all finder settings',
  'Tests use one sine wave per finder.',
  ['xboa/algorithms/peak_finder/_window_peak_finder.py', 'xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py', 'xboa/algorithms/peak_finder/_refine_peak_finder.py'],
  [('finders', 'xboa/algorithms/peak_finder/')], 'Brute-force reference for each documented criterion on generated signals.', 'Held on the signals executed.'),
P('P30', 'Smoothing keeps length and constants and follows its kernel',
  'Smoothing any signal returns a new signal of the documented length, linear in its input, leaving constants unchanged and equal to the stated weighted average of neighbours. '
  'The input is never modified.',
  ['inputs'], 'all signals, widths and lengths', 'Tests smooth one signal.',
  ['xboa/algorithms/smoothing/_gaussian_smoothing.py', 'xboa/algorithms/smoothing/_cut_smoothing.py'], [('kernels', 'xboa/algorithms/smoothing/')],
  'Direct evaluation of the documented kernel and linearity relations.', 'Held on the signals executed.'),
P('P31', 'Decoupling a stable transfer matrix preserves its dynamics',
  'For every stable symplectic one-turn matrix, the decoupled form has the same eigenvalues with one plane per block, reproduces the matrix through the stated change of basis, and reports phase advances that match the eigenvalues and go the way of the reported (positive) optical functions. '
  'The matched covariance built from it is positive and preserved by the matrix.',
  ['inputs'], 'all stable symplectic matrices in two, four and six dimensions, coupled or not',
  'There are no tests of it.',
  ['xboa/algorithms/decoupled_transfer_matrix.py'], [('decoupling', 'xboa/algorithms/decoupled_transfer_matrix.py')],
  'Generated symplectic matrices of known phase advance.', 'Held on the matrices executed.'),
P('P32', 'Density re-weighting tiles space and reproduces the requested density',
  'The cell contents used to weight hits are non-negative, are assigned to the right hits, and for closed cells equal the volume of the region nearest to that hit; a hull\'s content is its volume whatever the order or orientation of its points. '
  'Applying a target distribution gives each hit a weight proportional to density times content, and changes weights only.',
  ['inputs'], 'all point sets in general position in two to four dimensions and all target densities',
  'The only reliable test evaluates the target density.',
  ['xboa/bunch/weighting/_voronoi_weighting.py', 'xboa/bunch/weighting/_hull_content.py'], [('tiling', 'xboa/bunch/weighting/_voronoi_weighting.py'), ('volume', 'xboa/bunch/weighting/_hull_content.py')],
  'Independent polygon area, Monte-Carlo-free volume by scipy convex hull, and shape with known volumes.', 'Held on the inputs executed.'),
P('P33', 'Polynomial re-weighting reproduces the moments it was asked for',
  'After re-weighting a bunch to target moments, the weighted moments it was solved for take the requested values, for every target and number of variables. '
  'Only weights change, and the solution of the weight polynomial is consistent with the moments it was built from.',
  ['inputs'], 'all bunches, variable lists, orders and reachable targets',
  'One reliable test applies one polynomial.',
  ['xboa/bunch/weighting/_multipole_weighting.py'], [('moment inversion', 'xboa/bunch/weighting/_multipole_weighting.py')],
  'Moments recomputed independently after weighting.', 'Held on the inputs executed.'),
P('P34', 'Plots show the data they were given',
  'Graphs, scatter plots and histograms made from a bunch or from lists contain exactly the requested points in the requested units and order, with all of the weight in the binned ones and limits that cover the data. '
  'A sorted graph is a permutation of its points, and what a call asks of a ROOT plot (limits, line, fill, title, statistics box) is what it gets.',
  ['inputs'], 'all data lists, weights, units and limits', 'Tests only call plotting helpers.',
  [COMMON, BUNCH, 'xboa/common/matplotlib_wrapper.py'], [('plotting', COMMON+':make_matplot_*'), ('bunch plots', BUNCH+':matplot_*')],
  'The ROOT objects and matplotlib artists drawn are read back and compared with the data, bin by bin and point by point; the plots of the closed-orbit, tune and re-weighting tools included.', 'Held on the plots executed; how matplotlib and ROOT render them is not judged.'),
P('P35', 'Fitted and bounding ellipses contain what they claim',
  'The fitted ellipse of a point set is the weighted mean and covariance of exactly the points its cut keeps, iterated until the cut no longer changes or the limit is reached, whatever the size of the set and its distance from the origin; it is unaffected by the order of points and follows affine changes of them. '
  'A bounding ellipse keeps exactly the points inside it, in order and unaltered, and the points it puts on its boundary lie on it, in the number asked for and around its centre.',
  ['inputs'], 'all point sets in one and more dimensions, weights, cuts and iteration limits; all bounding ellipses',
  'Tests use one point set in two dimensions.',
  [COMMON, 'xboa/bunch/weighting/_bounding_ellipse.py'], [('fit', COMMON+':fit_ellipse'), ('bounding', 'xboa/bunch/weighting/_bounding_ellipse.py')],
  'The cut and the exact sums are iterated again independently; containment and affine covariance are judged on generated sets.', 'Held on the inputs executed.'),
P('P36', 'A build at any level of parallelism gives complete, importable modules',
  'Building the extension modules from source, with any number of parallel build jobs and any relative speed of compiler and linker, never links an object file while it is being rewritten and never writes one object file from two compilations at once. '
  'The resulting modules always import.',
  ['schedules'], 'all interleavings of compile and link steps at any job count', 'Tests run after a build and never vary its schedule.',
  ['setup.py'], [('extension list and build command', 'setup.py')],
  'A compiler wrapper logs start and end of every compile and link with its files and adds delays; overlap of a writer with any other user of the same object is judged off line (happens-before over the log).',
  'Held on the schedules executed.'),
P('P37', 'xboa runs without the packages it can do without',
  'xboa imports and every feature that does not need a missing package works and gives the same results whichever of numpy, matplotlib, ROOT, scipy and multiprocessing are missing. '
  'A feature whose package is missing is refused with an ImportError, before it changes the bunch or starts any process.',
  ['inputs', 'configurations'], 'all sets of missing packages and the features and inputs that use them', 'Tests run with every package installed.',
  ['xboa/common/config.py', COMMON, BUNCH, 'xboa/common/matplotlib_wrapper.py', 'xboa/algorithms/peak_finder/_refine_peak_finder.py'],
  [('packages', 'xboa/common/config.py:has_numpy'), ('bunch', BUNCH), ('helpers', COMMON)],
  'About seventy features run in separate processes whose import system hides a set of packages; every outcome is compared with that of a process that has all of them, and every refusal must be an ImportError that leaves the bunch as it was.', 'Held on the sets of packages and inputs executed; the packages are hidden from the import system, not uninstalled.'),
P('P38', 'Tracking through MAUS hands over and reads back every particle',
  'Each particle given to MAUS tracking reaches the simulation once, unchanged, in order and with the next random seed, and the tracks that come back are in the same order, each starting with the particle itself followed by its crossings with the right species, event and spill. '
  'MAUS is started afresh exactly when datacards are given, and a pickled tracking object goes on from the same seed, spill and tracks.',
  ['inputs', 'histories'], 'all histories of calls, particles, datacards, failures and copies', 'Tests need the MAUS library and are skipped without it.',
  ['xboa/tracking/_maus_tracking.py'], [('tracking', 'xboa/tracking/_maus_tracking.py')],
  'A stand-in for the MAUS library records every document and start and stop, and answers with generated crossings; the record is compared with the calls made.',
  'Held on the histories executed; the real MAUS library is not installed here, so only the xboa side of the interface is judged.'),
P('P39', 'The programs that come with xboa do what they describe',
  'The file converter translates the beam of the input format, cut to the chosen station, translated, rotated to the requested covariances about the requested origin and put on the mass shell as its control file says, into the output format, and draws the plots asked for. '
  'The emittance calculator writes one row of beam moments for every station with a beam, for the species, momentum window, weights and end cut it was given, in the units of its table; both programs refuse what they do not support. The shipped examples run to their end.',
  ['inputs', 'histories'], 'all control files, options and beams', 'Tests run neither the converter, the calculator nor the examples.',
  ['xboa/examples/File_Convert.py', 'xboa/examples/XBOA9f'], [('file_convert', 'xboa/examples/File_Convert.py'), ('main', 'xboa/examples/XBOA9f'), ('main', 'xboa/examples/closed_orbit.py')],
  'Generated beams and control files are given to the programs as shipped; what they write is parsed word by word and compared with closed formulas applied to the beams. Both programs import modules of python 2 or of another layout and cannot be started as they come (known findings, as the examples may not be changed here): the check provides those names and judges the parts that then work; rotations, weight files and pictures are judged once a program starts unaided.',
  'Held on the executions made, apart from the known findings; pictures are judged by which files are drawn, the amplitude and correlation columns of the table by bounds only.'),
]
