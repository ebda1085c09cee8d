"""Property table: what is claimed, where it is anchored, which rule decides
it.  tools/gen.py writes properties.jsonl and MANIFEST.json from here."""

PRIMS = ['src/primitives/%s.py' % n for n in ('bernoulli', 'beta',
    'categorical', 'crp', 'exponential', 'geometric', 'lognormal', 'normal',
    'normal_trunc', 'poisson', 'vonmises')]
TRUST = ('Trusts the term normaliser of lib/terms.py and lib/algebra.py and '
    'the type table in lib/typeinfo.py; floating point is read as exact '
    'arithmetic.')

PROPS = {}
NOT_APPLICABLE = {}


def P(pid, **k):
    PROPS[pid] = k


def NA(pid, **k):
    NOT_APPLICABLE[pid] = k


# Shared parts that a property rests on: obligations of other rules (selected
# by a pattern over rule|construct) that are decided as part of it.
FLIP = ('logdom.run', r'^(flip|normalise|log-sum-exp)\|')
SUM = ('logdom.run', r'^log-sum-exp\|')
USES = {
    'C01': [('mixture.bookkeeping',
        r'\|(View|State|Dim)\.(un)?incorporate$')],
    'C05': [('queries.run', r'^relevance\|relevance\.(relevance_probability'
        r'|logpdf_assignments\w*|row_values)')],
    'C06': [('ensemble.run', r'\|Engine\.(__init__|_seed_states|_get_seeds'
        r'|alter|simulate|simulate_bulk|mutual_information)$'),
        ('serial.run', r'^C07\.content\|')],
    'C17': [('mixture.bookkeeping', r'\|State\.(compose_cgpm|decompose_cgpm'
        r'|_update_is_composite)$'), ('mixture.density', r'build_network$')],
    'C25': [('ensemble.run', r'\|Engine\.transition'),
        ('mixture.kernels', r'\|View\.transition$')],
    'C02': [('logdom.run', r'^crp-density\|general.logp_crp$')],
    'C03': [('logdom.run', r'^(crp-density|flip|normalise|log-sum-exp)\|')],
    'C07': [('venture.saved', 'VsCGpm'),
        ('mixture.bookkeeping', r'^construction\|')],
    'C08': [('logdom.run', r'^(weighted-mean|log-mean-exp|log-sum-exp|flip'
        r'|normalise)\|')],
    'C09': [FLIP],
    'C12': [('logdom.run', r'^(grid|flip|normalise|log-sum-exp)\|'),
        ('mixture.scores', 'Dim.logpdf_score'),
        ('mixture.bookkeeping', r'^construction\||Dim\.set_hypers$')],
    'C13': [FLIP, ('closed.run', r'^C03\.(predictive|simulation)\|Crp'),
        ('mixture.kernels', 'Crp.gibbs_tables'),
        ('valid.run', r'^(group|query-split)\|'),
        ('network.run', 'ImportanceNetwork')],
    'C14': [('logdom.run', r'^(crp-density|dependent-density|effective'
        r'|effective-counts)\|'), ('closed.run', r'^C03\.score\|Crp')],
    'C16': [('logdom.run', r'^(crp-gibbs|flip|normalise|log-sum-exp)\|'),
        ('mixture.scores', 'Dim.logpdf_score'),
        ('mixture.density', r'\|Dim\.logpdf$'),
        ('mixture.bookkeeping', r'\|(View\.(_migrate_row|_bulk_incorporate'
        r'|incorporate_dim|unincorporate_dim|incorporate|unincorporate)'
        r'|State\.(_migrate_dim|_append_view|_delete_view))$'),
        ('closed.run', r'^C03\.score\|Crp')],
    'C19': [FLIP, ('logdom.run', r'^log-mean-exp\|'),
        ('graph.run', r'^(toposort|network-build|parents|required-inputs)\|'),
        ('mixture.density', r'\|State\.(logpdf|simulate|build_network'
        r'|_populate_constraints)$|\|View\.build_network$')],
    'C20': [('logdom.run', r'^crp-draw\|')],
    'C27': [SUM, ('ensemble.run', r'^bulk\|State\.(logpdf|simulate)_bulk'
        r'|^query\|Engine\.(dependence|row|relevance|mutual)'),
        ('graph.run', r'^(ancestors|components)\|')],
    'C32': [FLIP],
    'C30': [FLIP, ('mvn.run', r'logpdf'), ('schema.run', r'^dummy-code\|')],
}

P('C01', rule='inverse.run',
  title='Forgetting a row exactly undoes observing it',
  statement='''For every model, removing a row that was observed restores
    exactly the sufficient statistics, counts, stored data and cluster
    memberships the model had before that row was added, for every interleaving
    of additions and removals of other rows. A category or cluster whose last
    member leaves disappears, and one that still has members stays. Removing a
    row reaches every sub-model that adding it reached.''',
  over=['histories', 'inputs'],
  quant='all models, all rows and observed values (missing values included), '
    'all interleavings of incorporate and unincorporate',
  why='''Tests incorporate and unincorporate one synthetic sequence per model
    and compare a few numbers; the claim ranges over every history and value,
    and all but three tests do not even run on this interpreter.''',
  files=PRIMS + ['src/mixtures/dim.py', 'src/mixtures/view.py',
    'src/crosscat/state.py', 'src/regressions/forest.py',
    'src/regressions/ols.py', 'src/regressions/linreg.py',
    'src/factor/factor.py', 'src/kde/mvkde.py', 'src/knn/mvknn.py'],
  mechanism=[('paired incorporate/unincorporate updates', 'each model class'),
    ('removal of emptied clusters', 'src/mixtures/view.py unincorporate'),
    ('fan-out of rows to views and dims', 'src/crosscat/state.py')],
  technique='effect analysis: symbolic composition of location updates',
  note='''The updates of both operations are extracted by dataflow analysis and
    their composition is decided to be the identity by normal form on every
    path; containers are decided by matching fan-outs. ''' + TRUST)

P('C02', rule='conj.run',
  title='Predictive density equals the change in marginal likelihood',
  statement='''For every univariate model, the predictive log density of a value
    equals the marginal log likelihood of the data with that value observed
    minus the marginal log likelihood without it. The identity holds for every
    value in the support, every history of observations and every setting of
    the hyperparameters.''',
  over=['inputs', 'histories'],
  quant='all registered univariate models, all supported values, all data '
    'summaries, all hyperparameters',
  why='''Numerical tests compare a handful of points per model; the identity is
    algebraic and must hold for every statistic and hyperparameter.''',
  files=PRIMS + ['src/regressions/linreg.py', 'src/utils/config.py'],
  mechanism=[('predictive density', 'logpdf / calc_predictive_logp'),
    ('marginal likelihood', 'logpdf_score / calc_logpdf_marginal'),
    ('sufficient statistics', 'incorporate')],
  technique='symbolic summaries decided by algebraic normal form',
  note='''Both sides are summarised from the source and their difference is
    reduced to zero by normalisation (log/gamma/rational identities); no value
    is sampled and no solver is used. ''' + TRUST)

P('C05', rule='purity.run',
  title='Queries leave the model unchanged',
  statement='''Evaluating densities, simulating, scoring, asking for dependence,
    similarity, relevance or mutual information, reading settings, and
    serialising never change the model: the data, partitions, statistics,
    hyperparameters, parameters and diagnostics afterwards are those before,
    apart from the state of the random generator. A query that temporarily adds
    or removes rows puts everything back before it returns.''',
  over=['histories', 'inputs'],
  quant='every query of every model, engine and network, every argument, any '
    'sequence of queries',
  why='''A test sees the answers of a few queries, not that none of the
    hundreds of query paths leaves a trace in a nested container.''',
  files=['src/crosscat/state.py', 'src/crosscat/engine.py',
    'src/mixtures/view.py', 'src/mixtures/dim.py', 'src/mixtures/relevance.py',
    'src/crosscat/sampling.py', 'src/network/importance.py',
    'src/network/helpers.py', 'src/primitives', 'src/regressions', 'src/kde',
    'src/knn', 'src/factor', 'src/dummy', 'src/uncorrelated'],
  mechanism=[('queries only read', 'all query methods'),
    ('restore pairs', 'src/mixtures/relevance.py, State.relevance_probability')],
  technique='interprocedural effect (purity) analysis with cancelling pairs',
  note='''Every write, container mutation and mutating call reachable from a
    query is enumerated with its root object; restoration is decided on
    normally-returning paths (an exception raised between the halves of a
    restore pair is outside the claim). The Venture adapter keeps its state in
    an external interpreter and is exempt. ''' + TRUST)

P('C06', rule='rngflow.run',
  title='All randomness flows from the generator the model was given',
  statement='''Every random draw made by a model, its sub-models, its engine or
    an inference step comes from the generator supplied at construction (or one
    seeded from it), so the same seed and operations reproduce the same
    results. No operation draws from a process-wide generator, and nobody
    replaces, drops or re-seeds a supplied generator with a constant.''',
  over=['histories', 'configurations'],
  quant='all functions reachable from any model, all construction paths',
  why='''Reproducibility tests fix one seed and one path; an ambient draw on
    another path, or a sub-model built without the generator, is invisible to
    them.''',
  files=['src/utils/general.py', 'src/utils/sampling.py',
    'src/crosscat/state.py', 'src/crosscat/engine.py', 'src/mixtures/view.py',
    'src/mixtures/dim.py', 'src/primitives', 'src/uncorrelated',
    'src/regressions', 'src/network/importance.py'],
  mechanism=[('generator parameters', 'all constructors'),
    ('seeded factory', 'src/utils/general.py gen_rng')],
  technique='provenance dataflow of generator values over the call graph',
  note='''Each call that takes a generator is an obligation that the argument
    derives from the caller's own; ambient generators are excluded by name
    resolution over reachable functions. Venture and loom run out of process
    and are trusted to use the seed they get. ''' + TRUST)

P('C24', rule='purity.run_args',
  title="Operations never modify the caller's arguments",
  statement='''Constructors, observation, queries and reconstruction from saved
    metadata leave the dictionaries, lists and metadata passed by the caller
    exactly as they were, so the same arguments can be passed again with the
    same meaning. Only an object handed over to be updated, and the random
    generator, may change.''',
  over=['inputs', 'histories'],
  quant='every public operation and every argument',
  why='''A test passes fresh literals and never looks at them again; the claim
    covers every argument of every public operation on every path.''',
  files=['src/crosscat/state.py', 'src/crosscat/engine.py',
    'src/mixtures/view.py', 'src/regressions', 'src/primitives', 'src/utils',
    'src/network'],
  mechanism=[('local copies of constraints and metadata', 'query and '
    'from_metadata methods')],
  technique='interprocedural effect analysis rooted at parameters',
  note='''Every write and container mutation whose location is reached from a
    parameter is a violation; writes through a shallow copy one level down are
    followed. ''' + TRUST)

P('C03', rule='closed.run',
  title='Univariate models compute the textbook densities and draws',
  statement='''Each univariate model's marginal likelihood, predictive
    density and simulator are those of the named textbook model: the same
    closed form in the reported statistics and hyperparameters, and the same
    sequence of random draws with the same parameters. A parameter that is
    sampled rather than integrated out is scored under the law it is drawn
    from, and a recorded row simulates as its recorded value.''',
  over=['inputs', 'histories'],
  quant='all eleven univariate families, all data summaries, all '
    'hyperparameters, all values in the support',
  why='''Goodness-of-fit tests have power against gross errors at a few
    parameter values only, and cannot tell a wrong constant or exponent in a
    marginal likelihood from sampling noise.''',
  files=PRIMS,
  mechanism=[('closed forms', 'calc_* helpers, logpdf_score, logpdf'),
    ('generative process', 'simulate and sample_parameters')],
  technique='symbolic summaries compared with reference formulas',
  note='''Reference formulas are written independently in
    lib/rules/closed.py and compared by normal form with what dataflow
    extracts from the methods; location-scale draws are standardised; numeric
    escape hatches (== 0, isinf) are read at their generic value; angles are
    read modulo 2 pi. ''' + TRUST)

P('C04', rule='support.run',
  title='Supports agree, and a rejected observation changes nothing',
  statement='''A value is accepted by a univariate model exactly when its
    density there is positive, which is exactly the declared support of the
    family; other values are rejected with an error and get log density minus
    infinity. An accepted value is recorded as given, and an observation that
    is rejected leaves the model as it was.''',
  over=['inputs', 'histories'],
  quant='all values (integral or not, at and beyond every bound), all '
    'distribution arguments, all models that accept observations',
  why='''Tests try one or two bad values per family and check that something
    is raised, not that the accepting and the scoring side agree everywhere or
    that the failed call left no trace.''',
  files=PRIMS + ['src/mixtures/dim.py', 'src/mixtures/view.py',
    'src/crosscat/state.py'],
  mechanism=[('support guards', 'incorporate, logpdf, preprocess'),
    ('order of rejection and update', 'every incorporate')],
  technique='abstract interpretation of guards over order regions; '
    'update-before-reject dataflow',
  note='''Guards are evaluated in the finite domain of order and integrality
    regions of the constants they mention; an unknown predicate in a guard
    stops the analysis. Findings recorded: Beta at 0/1, and composite
    incorporates that reject halfway. ''' + TRUST)

P('C17', rule='graph.run',
  title='Composite networks follow the dependency graph of their members',
  statement='''In a network of models every variable is attributed to the one
    model that outputs it, a model's parents are exactly the models producing
    its inputs, and inputs produced by no member are the inputs of the network.
    Members are ordered so that each comes after all of its parents; cyclic
    networks, members without outputs and variables produced twice are
    rejected. Ancestors, descendants, connected components and the inputs a
    query needs are those of this graph.''',
  over=['configurations', 'inputs'],
  quant='every collection of models with any inputs and outputs, every set of '
    'targets and constraints',
  why='''Tests use a few fixed graphs; the claim is about every wiring,
    including diamonds, isolated models and cycles.''',
  files=['src/network/helpers.py', 'src/network/importance.py'],
  mechanism=[('graph queries', 'src/network/helpers.py'),
    ('construction', 'src/network/importance.py __init__')],
  technique='canonical-form comparison with reference definitions; loop '
    'invariant pattern analysis',
  note='''Each helper is summarised by dataflow and its result and rejection
    condition compared, up to canonical form, with a reference definition;
    ordering and closure loops are decided by the guard under which an element
    is added. ''' + TRUST)

P('C18', rule='valid.run',
  title='Dependence constraints are validated exactly',
  statement='''Declared dependences and independences are rejected exactly when
    a dependent block is a single column, mentions an unknown column or
    overlaps another block, when a pair is both dependent and independent or
    malformed, or when the row constraints of columns forced together
    contradict each other. A partition of columns is accepted exactly when
    every dependent block is together and every independent pair is apart.
    Splitting a query by such a partition keeps every entry under its own
    group.''',
  over=['configurations', 'inputs'],
  quant='every set of dependence and independence constraints on columns and '
    'on rows, every partition, every query',
  why='''Tests list a few bad constraint sets; a missing or inverted case
    silently builds a model that violates what the user declared.''',
  files=['src/utils/validation.py', 'src/utils/general.py',
    'src/crosscat/state.py'],
  mechanism=[('constraint checks', 'src/utils/validation.py'),
    ('query partition', 'src/utils/validation.py partition_*')],
  technique='canonical-form comparison of rejection conditions with reference '
    'definitions',
  note='''The rejection condition of every validator is extracted as a closed
    boolean condition with quantifiers and compared with the reference. '''
    + TRUST)

P('C28', rule='schema.run',
  title='Schemas, type strings and dummy codes are read faithfully',
  statement='''Reading a data frame under a schema yields, in schema order, the
    data, index, type, type arguments and name of every column that is not
    ignored; values of nominal columns are numbered from zero in sorted order,
    and a binary column without two values or more values than declared is
    rejected. Dummy coding replaces a discrete value of k levels by k-1
    indicators, passes other values through, and rejects values outside the
    levels. Type strings split into name and numeric arguments, every
    registered type name leads to the model class of that name, and to the
    matching feature type of the external engine.''',
  over=['inputs', 'configurations'],
  quant='all schemas and data frames, all covariate vectors, all type strings, '
    'all registered types',
  why='''Tests read one data frame and code one vector; a shifted column or
    code corrupts every model built from the data without any error.''',
  files=['src/utils/data.py', 'src/utils/config.py'],
  mechanism=[('schema reading', 'parse_schema, build_valmap'),
    ('dummy coding', 'dummy_code'), ('registry', 'src/utils/config.py')],
  technique='canonical-form comparison with reference definitions; registry '
    'resolution over the source index',
  note='''pandas and numpy operations (replace, unique, asarray) are
    uninterpreted, so only their placement is decided. ''' + TRUST)

P('C29', rule='mvn.run',
  title='Multivariate normal density and conditionals are exact',
  statement='''The multivariate normal log density, its gradients in every
    argument, and the conditional mean and covariance of some coordinates given
    others are the textbook formulas in the mean and covariance they are given.
    Coordinates keep their order, and each covariance is factored, solved and
    its determinant taken from that same covariance.''',
  over=['inputs'],
  quant='all dimensions, means, covariances, partitions of coordinates and '
    'evaluation points',
  why='''Tests compare a few points with library values; a wrong block or sign
    shows only for correlated, asymmetric inputs.''',
  files=['src/utils/mvnormal.py', 'src/factor/factor.py'],
  mechanism=[('density', 'logpdf, dlogpdf'), ('conditional', 'conditional')],
  technique='linear-algebra normal form compared with reference formulas',
  note='''Matrix expressions are normalised (solve, inverse, transpose,
    symmetric covariance) and compared with the closed forms. ''' + TRUST)

P('C26', rule='logdom.run',
  title='Log-domain arithmetic and partition probabilities are exact',
  statement='''Log-sum-exp, log-mean-exp (plain and weighted), normalisation,
    binomial coefficients and categorical draws are the textbook operations on
    all their entries, infinite ones included. The log probability of a
    partition is that of the Chinese restaurant process in the counts and
    concentration, seats are drawn in proportion to counts and concentration,
    and a block of dependent customers counts as one; merging, chaining,
    flattening, intersecting and blocking rows keep exactly the entries they
    name.''',
  over=['inputs'],
  quant='all arrays of log probabilities, all partitions, counts, '
    'concentrations and dependent blocks',
  why='''Everything the system infers goes through these functions; tests
    compare a few numbers or a histogram, which an off-by-one count or a
    dropped term survives.''',
  files=['src/utils/general.py'],
  mechanism=[('log-domain arithmetic', 'logsumexp, logmeanexp*'),
    ('partitions', 'logp_crp*, simulate_crp*'),
    ('containers', 'merged, lchain, get_intersection, build_rowid_blocks')],
  technique='canonical-form comparison with reference definitions, loops '
    'included',
  note='''Each function is summarised (loops as closed forms, or as the update
    they make to the variables the result depends on) and compared with an
    independent reference definition. ''' + TRUST)

P('C13', rule='mixture.density',
  title='Mixture densities and samples weigh clusters by evidence',
  statement='''The density of target columns given observed columns is, within
    each group of columns that share a row partition, the density under every
    cluster (an empty one included) weighted by the partition prior and by the
    density of the evidence, and groups multiply; for an observed row the
    cluster and the recorded values of its other columns are evidence too.
    Samples are drawn from the same weights, the draws for different groups of
    columns are independent, and exactly the targets are returned.''',
  over=['inputs', 'histories'],
  quant='all row partitions and column groups reached by inference, all '
    'targets, evidence, inputs, observed and unobserved rows',
  why='''Tests query a few trained models with loose tolerances; a wrong weight
    or a dropped piece of evidence shows only for particular combinations of
    targets, evidence and row.''',
  files=['src/crosscat/state.py', 'src/crosscat/sampling.py',
    'src/mixtures/view.py', 'src/mixtures/dim.py'],
  mechanism=[('fast path', 'src/crosscat/sampling.py'),
    ('network path', 'View.logpdf/simulate, State.build_network'),
    ('evidence', 'View._populate_constraints, State._populate_constraints')],
  technique='canonical effects of each method (dataflow with updates, inlined '
    'helpers) compared with reference definitions',
  note='''Every method is summarised by its result, its updates and its
    rejections in a canonical form, and compared with a reference definition;
    the densities of the columns themselves are C03. ''' + TRUST)

P('C14', rule='mixture.scores',
  title='A composite scores as its partition prior plus all its parts',
  statement='''The score of a column is the sum over exactly its clusters, that
    of a group of columns is its row-partition prior plus the scores of exactly
    its columns, and that of the whole model is the column-partition prior
    (under the declared dependence constraints) plus the scores of exactly its
    groups. Nothing is counted twice or left out, and reading a score changes
    nothing.''',
  over=['histories', 'configurations'],
  quant='every model state reachable by incorporation and inference',
  why='''Tests compare scores before and after inference, or their sign; a part
    counted twice or left out moves every score without any failure.''',
  files=['src/crosscat/state.py', 'src/mixtures/view.py',
    'src/mixtures/dim.py'],
  mechanism=[('scores', 'logpdf_score, logpdf_likelihood, logpdf_prior')],
  technique='canonical effects of each method compared with reference '
    'definitions',
  note='''The scores of the parts are C02 and C03; the partition priors are
    C26. ''' + TRUST)

P('C15', rule='mixture.bookkeeping',
  title='Data, column groups, row clusters and models stay in step',
  statement='''Adding, removing, moving or overwriting a row, a column, a cell
    or a column's type updates the data table, the column partition, the row
    partition of each group and the clusters of each column together: every
    column sits in exactly one group, every row in exactly one cluster of each
    group, clusters and groups disappear with their last member, and each
    cluster's model holds exactly the known values of its rows. Building a
    model from given partitions, types and hyperparameters assigns each to the
    column it was given for.''',
  over=['histories', 'inputs', 'configurations'],
  quant='all sequences of operations on rows, columns, cells and types, all '
    'partitions, missing values, attached models',
  why='''The invariants are checked by debug assertions only on the few
    histories the tests run; a step left out corrupts later densities, not the
    call that made it.''',
  files=['src/crosscat/state.py', 'src/mixtures/view.py',
    'src/mixtures/dim.py'],
  mechanism=[('columns', 'Dim.incorporate/unincorporate/preprocess'),
    ('groups of columns', 'View.*incorporate*, force_cell, update_cctype'),
    ('whole model', 'State.*incorporate*, _migrate_dim, compose_cgpm'),
    ('constructors', 'Dim, View, State __init__')],
  technique='canonical effects (guarded updates in dependency order) of each '
    'operation compared with reference definitions',
  note='''Updates of one object and reads of it keep their order; updates of
    unrelated objects commute. Each operation is compared with a reference, so
    the invariants follow from the references by induction over histories.
    ''' + TRUST)

P('C16', rule='mixture.kernels',
  title='Each inference step resamples from prior times likelihood',
  statement='''Moving a row, moving a column and resampling a hyperparameter or
    concentration each weigh exactly the available alternatives (existing and
    fresh groups, or grid values) by prior times likelihood of the data with
    the moved item taken out, draw one alternative with those weights, and
    install exactly the one drawn. Parameter steps without conjugacy target the
    joint density of the parameters and the data held by the model. A step
    changes nothing else, and touches exactly the rows, columns and groups it
    was asked to.''',
  over=['histories', 'configurations'],
  quant='every model state, every row, column, group and hyperparameter, any '
    'requested subset',
  why='''A wrong weight, a mispaired alternative or an item counted in its own
    predictive still yields plausible samples; no finite run distinguishes the
    stationary law.''',
  files=['src/crosscat/state.py', 'src/mixtures/view.py',
    'src/mixtures/dim.py', 'src/primitives/crp.py',
    'src/primitives/normal_trunc.py', 'src/primitives/beta.py',
    'src/regressions/linreg.py'],
  mechanism=[('rows', 'View._gibbs_transition_row'),
    ('columns', 'State._gibbs_transition_dim'),
    ('hyperparameters', 'Dim.transition_hypers'),
    ('auxiliary tables', 'Crp.gibbs_logps/gibbs_tables'),
    ('random walk', 'mh_sample: step, acceptance and what it carries')],
  technique='canonical effects of each step compared with reference '
    'definitions',
  note='''The step is compared with a reference definition of the weights, the
    pairing of weights with alternatives, the draw and the installation; that
    the chain mixes, and the proposal correction of the random-walk sampler
    (upstream issue), are not claimed. ''' + TRUST)

P('C20', rule='constraint.run',
  title='Declared column dependence and independence always hold',
  statement='''Columns declared dependent share a group and columns declared
    independent never do: in the partition a model is born with, in every move
    of a column, in the prior it is scored by, in states later added to an
    ensemble, and in what is handed to an external engine. Contradictory
    declarations are rejected, and those of a removed column are forgotten
    with it.''',
  over=['histories', 'configurations', 'inputs'],
  quant='all sets of constraints, all partitions and sequences of moves',
  why='''A partition that breaks a declaration arises only under particular
    draws; tests sample a few seeds and one set of constraints.''',
  files=['src/utils/general.py', 'src/utils/validation.py',
    'src/crosscat/state.py', 'src/crosscat/engine.py',
    'src/crosscat/lovecat.py'],
  mechanism=[('initial partition', 'simulate_crp_constrained*'),
    ('compatibility', 'validation.check_compatible_*'),
    ('moves', 'State._gibbs_transition_dim'),
    ('removal', 'State.unincorporate_dim'),
    ('ensemble', 'Engine.add_state'), ('export', 'lovecat._crosscat_X_L')],
  technique='canonical effects and quantified conditions of each site '
    'compared with reference definitions; constraint predicates decided over '
    'their truth tables',
  note='''Induction over histories: every site that can place a column respects
    the declarations, given the partition before did. That the external engine
    itself obeys them is outside the repository. ''' + TRUST)

P('C22', rule='exchange.run',
  title='External engines get the model as is, and it is read back as is',
  statement='''The data, types, codes, hyperparameters, row and column
    partitions and constraints handed to an external inference engine are those
    of the model, each at the position, name or code the engine identifies it
    by. The requested steps, seconds, columns, rows and seed are the ones it
    is given. The partitions and concentrations it returns are installed for the same
    columns and rows, together with its log of progress.''',
  over=['histories', 'configurations'],
  quant='every model (any numbering of columns, groups, clusters and '
    'categories), every request',
  why='''The engines are absent from the test machine, and a permuted row or
    column produces a valid but wrong model.''',
  files=['src/crosscat/lovecat.py', 'src/crosscat/loomcat.py'],
  mechanism=[('lovecat', '_crosscat_*, _update_*, transition'),
    ('loom', '_write_*, _retrieve_*, _update_state, transition*')],
  technique='canonical value of every exported structure and canonical '
    'effects of every import compared with reference definitions',
  note='''The engines' own behaviour and the format they expect are taken from
    their published interface. ''' + TRUST)

P('C27', rule='queries.run',
  title='Derived queries are computed from the model as defined',
  statement='''Dependence of columns, similarity of rows, relevance of rows and
    mutual information (also conditional and marginalized) follow their definitions over the
    current partitions and densities: dependence through shared groups,
    components or ancestors, similarity as the proportion of groups where two
    rows share a cluster, relevance as the posterior odds of a shared cluster,
    information from densities of the same samples under the same constraints.
    They are symmetric where the definition is, and leave the model as it
    was.''',
  over=['inputs', 'histories', 'configurations'],
  quant='every model, pair of columns, rows, hypothetical rows and '
    'constraints',
  why='''The estimators are stochastic or 0/1, so a wrong pairing of samples,
    constraints or tables stays within the tolerance of a test, or arises only
    for particular partitions.''',
  files=['src/crosscat/state.py', 'src/mixtures/view.py',
    'src/mixtures/relevance.py'],
  mechanism=[('dependence', 'State.dependence_probability*'),
    ('similarity', 'State.row_similarity*'),
    ('relevance', 'mixtures.relevance, *.relevance_probability'),
    ('information', 'State.mutual_information and its parts')],
  technique='canonical value and effects of each query compared with '
    'reference definitions',
  note='''The accuracy of the Monte Carlo estimates is not claimed. The graph
    traversals used are C17, the densities C13. When a density raises, the
    temporary changes of a relevance query are not undone; only queries that
    return are covered. ''' + TRUST)

P('C25', rule='budget.run',
  title='Inference runs what was asked, for as long as asked, and logs it',
  statement='''A request for N sweeps or S seconds (one sweep when neither is given) runs the
    named steps, in order, on the named rows, columns and groups until the
    budget is first found spent, which is tested before every step. Each step run is
    counted once, and with a checkpoint the score, concentration and column
    partition are recorded right after exactly the full sweeps it names. A
    request handed to an external engine carries the same budget.''',
  over=['histories', 'configurations', 'schedules'],
  quant='every positive budget, list of steps and checkpoint, every '
    'interleaving of clock readings',
  why='''Off-by-one sweeps, a stale clock or a checkpoint at the wrong sweep show
    only for particular budgets and timings.''',
  files=['src/crosscat/state.py', 'src/crosscat/lovecat.py',
    'src/crosscat/loomcat.py'],
  mechanism=[('loop', 'State._transition_generic'),
    ('requests', 'State.transition*, lovecat/loomcat.transition*'),
    ('log', 'State._increment_*')],
  technique='typestate of the sweep loop by abstract interpretation over a '
    'finite domain; canonical effects of the other sites compared with '
    'reference definitions',
  note='''The abstract domain relates counters to completed sweeps and clock
    readings to the last step; budgets of zero (which raise) are outside.
    ''' + TRUST)

P('C08', rule='ensemble.run',
  title='An ensemble applies each operation to each selected model',
  statement='''Every operation of an ensemble makes the corresponding operation of each
    selected model (all of them by default) exactly once, with the caller's
    arguments in the same roles; answers come back in the order of the
    selection, and changed models go back to the places they came from while
    the others stay as they were. Random queries reseed the models from the
    ensemble first, and answers are combined with the likelihood of the
    evidence under each model. Bulk requests pair their lists element by
    element.''',
  over=['inputs', 'histories', 'configurations'],
  quant='every operation, selection of models and argument',
  why='''A model put back in the wrong place or a swapped argument gives a result of
    the right shape, visible only with particular selections and models that
    differ.''',
  files=['src/crosscat/engine.py', 'src/crosscat/state.py'],
  mechanism=[('operations', 'crosscat.engine.Engine'),
    ('bulk', 'State.*_bulk')],
  technique='canonical effects and results of each operation compared with '
    'reference definitions generated from its signature',
  note='''The process pool is read as an ordered map here; that it is one is C21. An
    empty selection means all models. ''' + TRUST)

P('C07', rule='serial.run',
  title='A model rebuilt from its metadata is the model that wrote it',
  statement='''Restoring a model from the metadata it produced, directly, through JSON or
    through a file, gives the same class of model with the same data,
    parameters, structure and composed models; only its source of randomness
    is new. Metadata is a snapshot: later changes of the model do not alter
    it, and changes of a restored model alter neither the metadata nor the
    original.''',
  over=['inputs', 'histories', 'configurations'],
  quant='every model class and every history leading to the model',
  why='''Whether a field survives or is shared shows only after particular histories
    (deleted rows, composed models, refits, later inference), one test per
    field and history.''',
  files=['src/crosscat/state.py', 'src/crosscat/engine.py',
    'src/mixtures/view.py', 'src/factor/factor.py', 'src/regressions',
    'src/kde/mvkde.py', 'src/knn/mvknn.py', 'src/dummy', 'src/venturescript'],
  mechanism=[('write', '*.to_metadata'), ('read', '*.from_metadata'),
    ('build', '*.__init__')],
  technique='composition of to_metadata, from_metadata and the constructor as '
    'symbolic terms, compared field by field with the original; alias '
    'analysis of what the metadata shares against in-place updates anywhere',
  note='''The meaning of the arguments of the constructors of views and states is
    C15. Pickled third-party regressors are taken to be restored by pickle.
    Random generators are not part of a model. ''' + TRUST)

P('C19', rule='network.run',
  title='Network queries are importance-weighted over the whole network',
  statement='''A sample drawn for a network of models visits every model once in
    dependency order, each conditioned on the constraints, inputs and values
    drawn so far, and its weight is the likelihood of the constrained values
    given them. A simulation picks among the weighted samples in proportion to
    weight and returns exactly the requested variables; a density is the mean
    joint weight over the mean weight of the evidence; impossible evidence is
    rejected rather than answered. Asking for several samples repeats the
    query independently.''',
  over=['inputs', 'configurations'],
  quant='every network, query, evidence, accuracy and number of samples',
  why='''A parent drawn after its child, a weight added for the wrong values or a
    marginal reused changes a distribution, not a type; only averages over many
    runs on particular networks could show it.''',
  files=['src/network/importance.py', 'src/utils/general.py'],
  mechanism=[('network', 'network.importance.ImportanceNetwork'),
    ('repetition', 'utils.general.simulate_many and the methods it wraps')],
  technique='canonical effects and results compared with reference definitions; '
    'the repeating wrapper compared at each way of calling it',
  note='''The order and the required inputs are C17 and the log-domain helpers
    C16. That the mean of the weights is close to the density is a matter of
    the accuracy chosen. ''' + TRUST)

P('C21', rule='pool.run',
  title='The process pool is an ordered map that cannot lose an answer',
  statement='''Mapping a function over a list with a pool of processes returns the list
    of its results in order, whatever the number of processes and the order in
    which they finish: every element is given to exactly one worker and its
    result comes back at its place. If any call fails, or its result cannot be
    sent back, the map raises instead of waiting or returning; in every case
    the workers are ended and the queues closed.''',
  over=['inputs', 'schedules', 'fault_sequences', 'configurations'],
  quant='''every function, list, number of workers, order of completion and failing
    element''',
  why='''Which worker answers first, and whether a result can be sent, varies from run
    to run; a lost or misplaced answer needs a particular schedule or failure.''',
  files=['src/utils/parallel_map.py'],
  mechanism=[('map', 'utils.parallel_map.parallel_map'),
    ('worker', 'the target of its processes')],
  technique='path analysis of the message protocol: each turn of each loop of '
    'the parent and the worker uses its request, announcement and answer '
    'exactly once, on failing paths too',
  note='''A worker process killed from outside is not covered, nor are elements that
    fail when they are read. Pipes and processes are taken to work as
    documented. ''' + TRUST)

P('C09', rule='synthetic.run',
  title='Synthetic and example models sample from the densities they report',
  statement='''Each synthetic or hand-written example model draws its samples from one
    distribution over its columns and reports the log density of that same
    distribution; where it answers joint, marginal and conditional queries,
    they are those of one joint distribution. Values are taken from, and given
    to, the columns they belong to, and parameters (noise, scale, mixing
    weight) keep their meaning and their defaults.''',
  over=['inputs', 'configurations'],
  quant='every model, noise level, column naming and query',
  why='''A density that disagrees with its sampler is wrong by a factor or a shift
    that no crash reveals; it needs an integral or a large sample per model and
    query.''',
  files=['src/uncorrelated', 'src/dummy'],
  mechanism=[('undirected', 'uncorrelated.undirected and its subclasses'),
    ('directed', 'uncorrelated.directed and its subclasses'),
    ('examples', 'dummy.*')],
  technique='symbolic normal forms of samplers and densities compared with '
    'reference definitions, with recursive queries unfolded',
  note='''Densities at values outside the stated support of a binary column are not
    covered, and the table models round nothing. Diamond and Ring report no
    density. ''' + TRUST)

P('C30', rule='regress.run',
  title='Regressions, KDE, neighbour and factor models predict as defined',
  statement='''Each multivariate or conditional model answers density and
    simulation queries from its training rows by its definition: conjugate linear
    regression by its posterior predictive, least squares by its fit, the random
    forest mixed with a uniform outlier, kernel densities by their kernels and
    bandwidths, nearest neighbours by an equal mixture of local models, factor
    analysis by conditioning its joint normal. Values are matched to columns, rows
    with missing values are left out, an observed row is conditioned on its other
    values, and malformed queries are rejected.''',
  over=['inputs', 'histories', 'configurations'],
  quant='every training set, column naming, missingness pattern and query',
  why='''Their answers mix column order, dummy coding and linear algebra; a
    mismatch changes densities for some column orders or missingness patterns
    only, and several of these models have few tests that still run.''',
  files=['src/regressions', 'src/kde/mvkde.py', 'src/knn/mvknn.py',
    'src/factor/factor.py', 'src/utils/mvnormal.py'],
  mechanism=[('regressions', 'RandomForest, OrdinaryLeastSquares, '
        'LinearRegression'),
    ('multivariate', 'MultivariateKde, MultivariateKnn, FactorAnalysis')],
  technique='symbolic normal forms (with matrix products as words) of fits, '
    'densities and samplers compared with reference definitions',
  note='''scikit-learn, scipy and statsmodels are trusted for what their calls
    compute. Least squares simulates without noise and averages at most K
    neighbours, as upstream chose to. ''' + TRUST)

P('C10', rule='iface.run',
  title='Any model can stand in for any other model',
  statement='Every statistical type name a user can ask for leads to a '
  'model that reports that same name, declares the right kind (collapsed or '
  'not, continuous or discrete, conditional or not, numeric or symbolic) and '
  'implements the whole interface. Every model, built in, external, synthetic '
  'or composed, can be called exactly as the interface declares, with the same '
  'arguments in the same order and the same ones optional. No operation of '
  'the library fails because it refers to a name, attribute, method or '
  'argument that does not exist.',
  over=['programs', 'configurations'],
  quant='every model class and every place a composition can call it from',
  why='Tests call a few models from a few places in a few configurations; '
  'Python reports a missing name, attribute or argument only when that very '
  'line runs.',
  files=['src/cgpm.py', 'src/primitives/distribution.py',
    'src/utils/config.py', 'src/regressions/linreg.py',
    'src/mixtures/view.py'],
  mechanism=[('names and uses', 'name and definite-assignment analysis of '
        'every function; interprocedural type inference of receivers that '
        'resolves attributes, methods and call arguments'),
    ('interface', 'comparison of the class table with the declared interface '
        'and the registry of types')],
  technique='scope and definite-assignment analysis, type inference, '
  'signature conformance',
  note='Receivers whose class the type inference cannot determine are not '
  'checked; numpy, scipy and venture attributes are taken as existing. ' + TRUST)

P('C12', rule='hyper.run',
  title='Hyperparameters are valid, reported as set, and proposed validly',
  statement='''The hyperparameters a model reports are the ones it was given, at
    construction or later, under the same names; ones left out take valid
    defaults, invalid ones are rejected before anything changes, and valid ones
    are never rejected. Every value that inference can propose for a
    hyperparameter is valid, whatever the data, provided there is at least one
    observed value. A column's components always share its hyperparameters, a
    step draws each one from its grid in proportion to the score of the data
    under it, and models whose hyperparameters are fixed keep them.''',
  over=['inputs', 'configurations'],
  quant='every assignment of hyperparameters and every nonempty data set',
  why='''A swapped attribute or a grid that touches zero shows only for certain
    data sets and samples of the chain, as a crash or as a silently wrong
    posterior long after it was set.''',
  files=['src/primitives', 'src/regressions/linreg.py', 'src/mixtures/dim.py',
    'src/utils/general.py'],
  mechanism=[('set, get and construct', 'each model class'),
    ('proposed values', 'construct_hyper_grids of each model class'),
    ('columns', 'Dim, DistributionGpm.transition_hypers')],
  technique='symbolic normal forms of constructors, setters and getters; '
    'interval analysis of the proposal grids',
  note='''The concentration estimated for circular data is taken to be positive,
    which its Newton iteration makes true up to rounding. ''' + TRUST)


P('C11', rule='reject.run',
  title='Requests are turned down exactly when they are malformed',
  statement="""A query or observation is turned down with an error, before it
    changes anything, when it repeats a column it asks for, constrains a column
    it asks for, contradicts or overrides a recorded cell, gives inputs or
    constraints to a model that takes none, leaves out a column or input the
    model needs, or concerns a row that is already (or was never) recorded. A
    request with none of these faults is never turned down as malformed.""",
  over=['inputs', 'histories'],
  quant='every request to every model, whatever was recorded before',
  why="""A test tries a handful of bad requests on one model; a check that
    looks at one list and not the other, or at the wrong row, lets through
    requests that silently corrupt the data or answer another question, and
    one that is too strict fails only for a rare valid request.""",
  files=['src/crosscat/state.py', 'src/mixtures/view.py',
    'src/mixtures/dim.py', 'src/primitives/distribution.py',
    'src/regressions/linreg.py', 'src/venturescript/vscgpm.py',
    'src/knn/mvknn.py', 'src/kde/mvkde.py', 'src/factor/factor.py',
    'src/uncorrelated/uniformx.py'],
  mechanism=[('conditions', 'operations of distributions, columns, views, '
        'states, regressions, venture programs, multivariate estimators and '
        'synthetic models'),
    ('before changing', 'order of checks and writes on every path')],
  technique='path conditions of raises and assertions in normal form, '
    'compared with reference conditions; ordering of writes and checks',
  note="""Checks of values against the support are C04, of the network
    C19. Errors that Python itself raises
    (a missing key) are not counted as checks, except where they are caught
    and turned into one. Regressions ignore columns other than their own in an
    observation, as upstream chose to. """ + TRUST)

P('C23', rule='venture.run',
  title='External probabilistic programs see exactly what the user does',
  statement="""When a model is a program run by an external probabilistic
    programming engine, recording a row shows the program exactly the cells
    given, each under its own column, with the row and its inputs in the
    declared order, and removing it retracts exactly those observations. A
    query shows the program only the given constraints, asks for exactly the
    requested columns, and afterwards retracts everything it added, so the
    program and the record are as before. Inference runs as often as asked, and
    a single-expression model evaluates that expression at the given inputs.""",
  over=['histories', 'inputs'],
  quant='every sequence of observations, removals, queries and inference on '
    'every program',
  why="""The engine is not part of the repository or of its tests here, and an
    observation that is never retracted, or inputs passed in the wrong order,
    changes no result at once: it silently conditions every later query.""",
  files=['src/venturescript/vscgpm.py', 'src/venturescript/vsinline.py',
    'src/dummy/trollnormal.py'],
  mechanism=[('effects on the program', 'observe, predict, infer, assume, '
        'forget of each operation, with what they are given'),
    ('record', 'inputs and labels of each row')],
  technique='symbolic effect summaries of each operation in normal form, '
    'compared with reference operations',
  note="""What the engine does with an observation or a program is not
    decided. """ + TRUST)

P('C31', rule='kind.run',
  title='Models describe their own kind, type arguments and statistics truly',
  statement="""Each kind of model is called by the name it is registered under,
    and what it declares of itself is what it does: it is collapsed exactly
    when inference has no parameters of it to update, conditional exactly when
    its outcomes depend on inputs, continuous exactly when its support is an
    interval. The type arguments it reports are those it was given and suffice
    to build it again (category counts included, which models that take it as
    an input rely on), the statistics it reports are the sums and counts of
    what was observed, and a column says of itself what its models say.""",
  over=['inputs', 'configurations', 'histories'],
  quant='every registered kind of model, whatever its arguments and data',
  why="""These declarations steer inference and the encoding of one column as
    the input of another; a wrong one raises nothing by itself, but skips the
    parameters of a model, drops its inputs or miscodes its categories in
    compositions no test builds.""",
  files=['src/primitives', 'src/regressions', 'src/mixtures/dim.py',
    'src/utils/config.py'],
  mechanism=[('kinds', 'is_collapsed, is_conditional, is_continuous, '
        'is_numeric against the operations'),
    ('type arguments', 'get_distargs through the constructor'),
    ('statistics', 'get_suffstats against incorporate')],
  technique='symbolic summaries of accessors, constructors and observation; '
    'dependence of outcomes on the inputs',
  note="""Whether values are quantities or categories is declared per type by
    the checker. """ + TRUST)

P('C32', rule='samplers.run',
  title='General samplers leave the density they are given invariant',
  statement="""Each general-purpose sampler leaves the density it is given
    invariant: the random walk takes a symmetric step and accepts it by the
    ratio of densities, the slice sampler draws uniformly from an interval
    around the current point (extended while the density is above the height,
    cut at the support, shrunk towards the point) until the density exceeds the
    height drawn, and rejection keeps a proposal when a uniform height below
    the envelope is below the target. A weighted choice draws each alternative
    with its normalised weight. What is returned are points of that walk, as
    many as asked for.""",
  over=['inputs', 'histories'],
  quant='every target density, support, starting point, step size and number '
    'of samples, every weight vector',
  why="""A sampler with a wrong acceptance or interval rule still returns
    plausible points; tests compare a histogram of one density with a wide
    tolerance.""",
  files=['src/utils/sampling.py', 'src/utils/general.py'],
  mechanism=[('random walk', 'mh_sample'),
    ('slice', 'slice_sample, _find_slice_interval'),
    ('rejection', 'rejection_sample'), ('choice', 'pflip, log_pflip')],
  technique='symbolic summaries of the loops as recurrences of carried '
    'variables, compared with the transition of the method; symmetry by '
    'substitution',
  note="""That the step size adapts during the run, and that a folded step
    is symmetric up to a point, are taken as the method states. """ + TRUST)

NA('N01', title='Inference converges to the posterior it targets',
  statement="""Run long enough, from any starting state and with any schedule
    of its steps, inference visits partitions, assignments, parameters and
    hyperparameters with their posterior probabilities given the data.""",
  over=['inputs', 'histories', 'schedules'],
  quant='every data set, model and starting state, in the limit of steps',
  why="""A finite chain cannot distinguish slow mixing from a wrong limit, and
    the exact posterior is out of reach for all but toy data.""",
  files=['src/crosscat/state.py', 'src/mixtures/view.py',
    'src/utils/sampling.py'],
  mechanism=[('kernels', 'single steps are C16; their composition is not '
    'decided')],
  reason="""Convergence quantifies over the law of an unbounded random run:
    it is a statement about expectations over generator streams, not about
    paths of the source. What the source does fix, that each step weighs the
    right alternatives by the right terms and accepts by the right ratio, is
    C16, C20 and C25. (The random-walk sampler omits its proposal correction
    near a bound, upstream issue 56, so the general claim would not hold.)""")

NA('N02', title='Numerical results are accurate to rounding error',
  statement="""For every input in range, densities, scores and estimates equal
    the real-valued result up to a small relative error, without overflow,
    underflow to a wrong branch or cancellation.""",
  over=['inputs'],
  quant='every representable parameter, statistic and value',
  why="""A test samples a few magnitudes; loss of precision appears at
    extreme counts, scales or nearly singular covariances.""",
  files=['src/primitives/normal.py', 'src/primitives/vonmises.py',
    'src/utils/mvnormal.py'],
  mechanism=[('formulas', 'the exact-arithmetic reading of the formulas is '
    'C02, C03, C26 and C29')],
  reason="""The magnitudes of statistics, hyperparameters and third-party
    special functions (numpy, scipy) are run-time quantities with no static
    bound in the source, and an error analysis of those libraries is not
    available to a source analysis. Formulas are decided as exact
    arithmetic instead.""")

NA('N03', title='Monte Carlo estimates are close to what they estimate',
  statement="""Mutual information, entropies, divergences and importance-
    weighted densities lie within the error their sample sizes allow of the
    true value.""",
  over=['inputs', 'configurations'],
  quant='every model, query and number of samples',
  why="""The true value is unknown except in a few closed-form cases.""",
  files=['src/crosscat/state.py', 'src/network/importance.py',
    'src/utils/entropy_estimators.py'],
  mechanism=[('estimators', 'their definitions are C19 and C27')],
  reason="""Closeness is a property of the variance of an estimator over
    random streams and of the model's density, which no source analysis
    bounds. That the estimator averages the right terms over the right
    samples is decided (C19, C27).""")

NA('N04', title='Plots and renderings show the model as it is',
  statement="""Every figure drawn of a state, a column or a table of posterior
    samples shows exactly the data, clusters and densities of the model.""",
  over=['inputs', 'configurations'],
  quant='every model and every figure',
  why="""Nothing in the tests looks at a figure.""",
  files=['src/utils/plots.py', 'src/utils/render.py'],
  mechanism=[('figures', 'calls of matplotlib')],
  reason="""What a figure shows is decided by matplotlib from run-time
    values; there is no oracle in the source for what a faithful picture
    is. That drawing does not change the model or take randomness from
    elsewhere falls under C05 and C06 where it is reachable from a query.""")

NA('N05', title='External engines infer and sample correctly',
  statement="""Given the model and data handed to them, the external inference
    and probabilistic-programming engines run the inference asked for and
    return samples of the program.""",
  over=['programs', 'inputs'],
  quant='every program and exported model',
  why="""The engines are not installed where the tests run.""",
  files=['src/crosscat/loomcat.py', 'src/crosscat/lovecat.py',
    'src/venturescript/vscgpm.py'],
  mechanism=[('hand-over', 'what is handed over and read back is C22 and '
    'C23')],
  reason="""The engines' source is not in the repository, so there is nothing
    to analyse; the hand-over in both directions is decided in C22 and
    C23.""")
