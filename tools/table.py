"""The property table: the single source of properties.jsonl and MANIFEST.json."""
CL = 'harold/_classes.py'
SY = 'harold/_system_funcs.py'
DI = 'harold/_discrete_funcs.py'


def P(id, title, statement, over, qtext, why, mech, state=(), observe=(),
      tech=None, note=None):
    files = []
    for _, w in mech:
        f = w.split(':')[0]
        if f not in files:
            files.append(f)
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w)
                                 for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    return dict(prop=d, tech=tech, note=note)


TECH = ('abstract interpretation of the Python source (AST) over a reduced '
        'product of kind, shape, ownership, sampling-period and value-number '
        'domains with trace partitioning, joins and widening')

TABLE = [
 P('C01', 'Derived models carry the sampling period of their operands',
   'Every operation that derives a model from existing models (arithmetic in '
   'every operand order and kind, negation, indexing, feedback, conversion '
   'between representations, minimal/Hessenberg/Kalman realizations) returns '
   'a model with the sampling period of its model operands, continuous models '
   'staying continuous. Discretizing gives exactly the requested period and '
   'undiscretizing gives a continuous model. A static gain is no exception.',
   ['inputs', 'programs'],
   'every operand kind pair (State/Transfer, dynamic/static, scalar, array), '
   'every supported shape, any sampling period, any numeric content',
   'The suite checks the period for a handful of sums and products of a few '
   'fixed models; the branches differ per kind, shape and static/dynamic '
   'combination and most are never executed.',
   [('Transfer arithmetic', CL + ':Transfer.__add__/__mul__/__matmul__/'
     '__truediv__ and reflected'),
    ('State arithmetic', CL + ':State.__add__/__mul__/__matmul__/__truediv__ '
     'and reflected'),
    ('conversions', CL + ':state_to_transfer/transfer_to_state'),
    ('realizations', SY + ':minimal_realization/hessenberg_realization'),
    ('discretize/undiscretize', DI + ':discretize/undiscretize'),
    ('feedback', 'harold/_bd_algebra.py:feedback')],
   [('SamplingPeriod', 'period in seconds or none for continuous models',
     CL + ':State._dt, Transfer._dt')],
   ['SamplingPeriod and SamplingSet of the returned model']),
 P('C02', 'Models with different sampling periods never combine',
   'Any arithmetic operation or feedback interconnection of two models whose '
   'sampling periods differ - continuous against discrete, or two different '
   'periods - is rejected with a ValueError and never returns a model. Two '
   'models with the same period are never rejected for that reason.',
   ['inputs', 'programs'],
   'every ordered pair of model kinds, static/dynamic combination, supported '
   'shape, and every pair of differing sampling periods',
   'Tests try a few pairs for addition and multiplication with one period; '
   'the guard has to dominate every returning path of every operator branch.',
   [('sampling period guards', CL + ':Transfer/State operator methods'),
    ('feedback guard', 'harold/_bd_algebra.py:feedback')]),
 P('C03', 'Operations return the documented representation kind',
   'The result representation depends only on the operand kinds: Transfer '
   'with Transfer (or numbers, arrays) stays Transfer, State with anything '
   'gives State, and conversions, realizations, discretization and feedback '
   'return the representation documented for them, whether or not the '
   'operands happen to be static gains.',
   ['inputs', 'programs'],
   'every operator and derived-model function, operand kind pair, '
   'static/dynamic combination and supported shape',
   'A wrong kind only appears for specific kind/static/shape combinations; '
   'tests use a few fixed models.',
   [('operator dispatch', CL + ':Transfer/State operator methods'),
    ('conversions', CL + ':state_to_transfer/transfer_to_state'),
    ('feedback', 'harold/_bd_algebra.py:feedback')]),
 P('C04', 'Input/output shape follows the algebra for every combination',
   'The result of combining two models (or a model with a scalar or an array) '
   'has the shape that matrix algebra with single-channel broadcasting '
   'prescribes; incompatible shapes raise ValueError and compatible ones '
   'succeed. Indexing, negation, conversions, realizations, discretization '
   'and feedback likewise return models of the prescribed shape.',
   ['inputs', 'programs'],
   'every operator, ordered operand kind pair, static/dynamic combination and '
   'all shapes up to 2x3/3x2, vectors of up to three entries and '
   'zero-dimensional arrays, with generic numeric content',
   'The existing tests cover a few shape pairs; shape errors sit in branches '
   'selected by kind, staticness, SISO-ness and operand order.',
   [('operator methods', CL + ':Transfer/State operator methods'),
    ('indexing', CL + ':Transfer.__getitem__, State.__getitem__'),
    ('conversions', CL + ':state_to_transfer/transfer_to_state')]),
 P('C05', 'Arguments are never modified',
   'No public function, constructor, operator, property or method changes the '
   'contents of an array, list or dictionary the caller passes in, nor the '
   'matrices, coefficients, sampling period or discretization data of a model '
   'passed in. Only assigning to a property of a model changes that model.',
   ['inputs', 'programs'],
   'every public entry point with its documented argument forms and options, '
   'any numeric content',
   'Mutation shows only when the caller looks at its own data afterwards; '
   'tests compare results, and in-place numpy operations reach caller data '
   'only for particular dtypes, shapes and option values.',
   [('public functions', 'harold/__init__.py:all exported names'),
    ('constructors', CL + ':Transfer.validate_arguments, '
     'State.validate_arguments'),
    ('Lyapunov solvers', 'harold/_solvers.py:lyapunov_eq_solver'),
    ('simulation', 'harold/_time_domain.py:simulate_linear_system')],
   tech='effect and ownership analysis by abstract interpretation: every '
   'buffer carries its owner, every write is attributed to a buffer'),
 P('C06', 'New models own their data',
   'A model does not share array storage with the arrays or models it was '
   'made from: changing an array that was passed to a constructor, or '
   'changing a model used as operand of an operation, leaves the new model '
   'unchanged, and the reverse. Two models returned by separate calls share '
   'nothing either.',
   ['inputs', 'histories'],
   'every constructor form and every operation that returns a model, any '
   'later change of the source data',
   'Aliasing is invisible until one of the two sides is written to; tests '
   'never write to the source after building a model.',
   [('constructors', CL + ':Transfer.__init__, State.__init__'),
    ('operators', CL + ':operator methods of Transfer and State'),
    ('attribute setters', CL + ':a/b/c/d/num/den/DiscretizationMatrix '
     'setters')],
   tech='ownership (escape/alias) analysis by abstract interpretation: the '
   'buffers reachable from the result against those reachable from the '
   'arguments'),
 P('C16', 'Feedback interconnection is the closed-loop formula',
   'The feedback interconnection of G with K (positive sign, or negative sign '
   'for models without direct feedthrough in both) has the transfer matrix '
   'G(I -/+ KG)^-1, for State, Transfer, mixed, static and plain gain '
   'arguments. A loop whose direct feedthrough makes it singular is rejected '
   'with a ValueError.',
   ['inputs'],
   'every kind pair, conformable shapes up to 2x3, continuous and discrete, '
   'both signs, with and without feedthrough, any numeric content',
   'Formula errors hide in matrices that are zero, identity or symmetric in '
   'the test data; only a few loops are tested.',
   [('feedback', 'harold/_bd_algebra.py:feedback')],
   tech='value numbering by abstract interpretation, rational functions '
   'compared by random interpretation'),
 P('C17', 'State arithmetic agrees with transfer-matrix algebra',
   'Adding, subtracting, negating, multiplying or dividing models when at '
   'least one of them is a State gives a model whose transfer matrix is the '
   'sum, difference, product (in operand order) or quotient of the transfer '
   'matrices of the operands, numbers and arrays acting as gains and single-'
   'channel operands being broadcast.',
   ['inputs'],
   'every operator, operand kind pair and order, shapes up to 2x3, numbers of '
   'states 0-3, any numeric content',
   'Tests compare a few numeric cases; errors in one block of the combined '
   'matrices vanish when that block is zero or the sizes coincide.',
   [('State operators', CL + ':State.__add__/__mul__/__matmul__/__truediv__ '
     'and reflected'),
    ('Transfer operators with State', CL + ':Transfer operator methods')],
   tech='value numbering by abstract interpretation, rational functions '
   'compared by random interpretation'),
 P('C18', 'Transfer arithmetic agrees with rational-function algebra',
   'Adding, subtracting, negating, multiplying (elementwise *, matrix product '
   '@) or dividing Transfer models, numbers and arrays gives a Transfer whose '
   'rational functions are exactly the corresponding combination of the '
   'operand entries, for single- and multi-channel operands in either order.',
   ['inputs'],
   'every operator, operand kind pair and order, shapes up to 2x3, polynomial '
   'lengths up to 4, any coefficients',
   'Each operator has many branches per shape and staticness; tests reach a '
   'few with special coefficients.',
   [('Transfer operators', CL + ':Transfer.__add__/__mul__/__matmul__/'
     '__truediv__ and reflected')],
   tech='value numbering by abstract interpretation, rational functions '
   'compared by random interpretation'),
 P('C19', 'Conversions keep the input/output behaviour',
   'Converting a State to a Transfer or back, in either output form, and '
   'bringing a model to Hessenberg form gives a model (or matrices, or '
   'polynomials) with the same transfer matrix as the original, including '
   'direct feedthrough, zero entries, static entries and unequal degrees '
   'across the channels.',
   ['inputs'],
   'State models with 0-3 states and Transfer models with entry degrees 0-3, '
   'shapes up to 2x3, any numeric content in general position',
   'The converters branch on shape, degree pattern, zero and static entries; '
   'tests convert a few models and compare numerically.',
   [('state_to_transfer', CL + ':state_to_transfer'),
    ('transfer_to_state', CL + ':transfer_to_state'),
    ('hessenberg_realization', SY + ':hessenberg_realization')],
   tech='value numbering by abstract interpretation; eigenvalues, roots and '
   'zeros interpreted by exact factorization over a finite field'),
 P('C20', 'Documented calls never end in an internal error',
   'Calling a public function, constructor, method or property with arguments '
   'of the documented kinds and shapes either returns or raises ValueError '
   '(or its linear-algebra subclass) with a message; it never ends in an '
   'accidental TypeError, NameError, AttributeError, IndexError, KeyError, '
   'UnboundLocalError or endless recursion.',
   ['inputs', 'programs'],
   'every exported function with its documented argument forms and options '
   'over the operand kinds and shapes of the catalogue, any numeric content',
   'Branches for rarely used options, shapes and kinds are not executed by '
   'the tests, and Python reports such errors only when they run.',
   [('public functions', 'harold/__init__.py:all exported names')]),
 P('C31', 'Indexing selects exactly the requested channels',
   'Selecting outputs and inputs of a model by integers, negative integers, '
   'slices, index lists or combinations gives the model of exactly those '
   'channels in the requested order, repeated channels included, with the '
   'numbers of inputs and outputs and the transfer matrix that the same '
   'selection on the full transfer matrix gives.',
   ['inputs'],
   'every index form over all shapes up to 3x3, State and Transfer, static '
   'and dynamic, any numeric content',
   'The tests use a few slices; order, repetition, negative steps and '
   'single-entry selections take different branches.',
   [('State indexing', CL + ':State.__getitem__'),
    ('Transfer indexing', CL + ':Transfer.__getitem__')],
   tech='value numbering by abstract interpretation'),
 P('C07', 'Setting a property equals building the model anew',
   'Assigning a matrix, polynomial or sampling period of an existing model '
   'leaves it in the state of a model built from the new data: coefficients, '
   'poles, zeros, stability, shape, gain and SISO status and sampling set all '
   'agree.  A rejected assignment (wrong shape, noncausal, invalid period) '
   'raises ValueError or TypeError and leaves every property as it was.',
   ['inputs', 'histories'],
   'every settable property of State and Transfer, accepted and rejected '
   'values, 1-3 states, shapes up to 2x3, continuous and discrete, any '
   'numeric content',
   'Derived attributes are cached in several private fields, so a setter can '
   'update the asked-for value and leave a stale one behind that no test '
   'reads afterwards.',
   [('property setters', CL + ':State/Transfer property setters'),
    ('recomputation', CL + ':Transfer._recalc, State._recalc')],
   state=[('derived attributes', 'poles, zeros, stability, gain and SISO '
           'status cached next to the data', CL + ':State, Transfer')],
   tech='relational abstract interpretation: value numbers of all public '
   'attributes after a set against those of a fresh construction'),
 P('C08', 'Discretized models remember how they were made',
   'The result of a discretization reports the method, and the prewarp '
   'frequency or matrix, it was made with; converting back to continuous time '
   'clears them.  Method names outside the documented list, a matrix of the '
   'wrong size, discretizing a discrete model and undiscretizing a continuous '
   'one are rejected with ValueError.',
   ['inputs', 'histories'],
   'every method, with and without prewarping, State and Transfer, single and '
   'multi channel, and every attribute assignment of method, matrix and '
   'prewarp frequency',
   'Tests look at the numbers of a few discretizations, not at the remembered '
   'data for each method and kind.',
   [('discretize/undiscretize', DI + ':discretize/undiscretize'),
    ('method attributes', CL + ':DiscretizedWith, DiscretizationMatrix, '
     'PrewarpFrequency')],
   tech='attribute dataflow by abstract interpretation'),
 P('C09', 'Undiscretizing recovers the discretized model',
   'Discretizing a continuous model with any documented method and converting '
   'it back with the same method, whether named again or remembered by the '
   'model, gives the transfer matrix of the original model.',
   ['inputs', 'histories'],
   'all methods with and without prewarping, State with 1-3 states and '
   'Transfer with degrees up to 3, shapes up to 2x2, static gains, any '
   'content in general position and any positive period',
   'Tests round-trip a few models at one sampling period.',
   [('discretize', DI + ':_discretize'),
    ('undiscretize', DI + ':_undiscretize')],
   tech='value numbering by abstract interpretation, transfer matrices '
   'compared by random interpretation'),
 P('C10', 'Each discretization method applies its documented map',
   'The discretized transfer matrix is the continuous one with s replaced by '
   'the substitution documented for the method (forward and backward '
   'difference, Tustin with and without prewarping, a general linear '
   'fractional map), or the zero- or first-order-hold equivalent; converting '
   'back applies the inverse substitution, and Tustin is the default.',
   ['inputs'],
   'all methods with and without prewarping, State and Transfer, shapes up to '
   '2x2, static gains, any content in general position and any positive '
   'period',
   'Tests compare a few numeric examples; scale factors that cancel at a '
   'sampling period of 1 or for SISO models stay unseen.',
   [('discretize', DI + ':_discretize'),
    ('undiscretize', DI + ':_undiscretize')],
   tech='value numbering by abstract interpretation, transfer matrices '
   'compared by random interpretation'),
 P('C12', 'Frequency responses are the transfer matrix on the given grid',
   'The frequency response at each grid point is the transfer matrix '
   'evaluated at jw, or at exp(jwT) for discrete models, arranged as (outputs, '
   'inputs, frequencies) and flat for a single channel.  The grid may be '
   'given in Hz or rad/s and is returned in the requested unit, whatever the '
   'letter case of the unit name; points beyond the Nyquist frequency of a '
   'discrete model are dropped.',
   ['inputs', 'configurations'],
   'State with 1-3 states, Transfer with degrees up to 2, static gains, '
   'shapes up to 2x3, continuous and discrete, all unit combinations, grids '
   'of up to 3 points given as list, scalar, row or column, any content',
   'State models take a Hessenberg-reduced solve per branch on number of '
   'inputs and outputs, Transfer models polynomial evaluation per entry; '
   'tests compare one or two examples.',
   [('frequency_response', 'harold/_frequency_domain.py:frequency_response'),
    ('unit conversion', 'harold/_frequency_domain.py:frequency_response')],
   tech='value numbering by abstract interpretation, compared by random '
   'interpretation in GF(p)[i]'),
 P('C13', 'Simulations return consistent shapes and times, or refuse',
   'A simulated response has one row per sample and one column per output, '
   'with a third axis per input for per-channel and step/impulse responses '
   'of models with more than one input; the returned time vector holds the '
   'given times, or multiples of the sampling period if none were given.  '
   'Empty, uneven, decreasing or constant time vectors, times that '
   'contradict the sampling period, and inputs or initial conditions that do '
   'not fit the model are rejected with ValueError.',
   ['inputs', 'configurations'],
   'State with up to 3 states, Transfer, static gains, shapes up to 2x2, '
   'continuous and discrete, inputs as list, row, column or array, with and '
   'without times and initial conditions; every kind of misfit',
   'The shape of the result and the checks on arguments depend on the '
   'number of samples, inputs, outputs and on the form in which the '
   'arguments are given; tests use one combination each.',
   [('simulate_linear_system', 'harold/_time_domain.py:simulate_linear_system'),
    ('argument checks',
     'harold/_time_domain.py:_check_u_and_t_for_simulation'),
    ('initial condition', 'harold/_time_domain.py:simulate_linear_system'),
    ('time vector', 'harold/_time_domain.py:_check_custom_time_input')],
   tech='shape inference and value numbering by abstract interpretation'),
 P('C14', 'Simulated responses follow the sampled state recursion',
   'Sample k of a simulated output is C x_k + D u_k with x_(k+1) = F x_k + '
   'G u_k started at the given initial condition, where F and G are the '
   'matrices of a discrete model or the hold equivalent of a continuous one.  '
   'Per-channel responses use one input at a time; step responses use the '
   'unit step and impulse responses a pulse of height 1/T at the first '
   'sample.',
   ['inputs', 'configurations', 'histories'],
   'State with up to 3 states, Transfer, static gains, shapes up to 2x2, up '
   'to 3 samples, any content in general position and any input history',
   'The value at a sample depends on all earlier inputs and on every matrix '
   'entry; tests compare a few numbers and shapes.',
   [('recursion', 'harold/_time_domain.py:simulate_linear_system'),
    ('step', 'harold/_time_domain.py:simulate_step_response'),
    ('impulse', 'harold/_time_domain.py:simulate_impulse_response')],
   tech='value numbering by abstract interpretation, compared by random '
   'interpretation'),
 P('C15', 'Lyapunov solutions satisfy their equation',
   'The matrix returned by the Lyapunov solver satisfies the documented '
   'continuous or discrete, ordinary or generalized equation for every '
   'arrangement of real eigenvalues and complex pairs.  Unknown equation '
   'names and matrices whose sizes do not match are rejected.',
   ['inputs', 'configurations'],
   'sizes 1 to 6, every tested arrangement of 1x1 and 2x2 diagonal blocks in '
   'the real Schur form, any content in general position',
   'The block recursion takes a different path for each sequence of block '
   'sizes; tests check a few matrices whose block sequences miss most.',
   [('dispatch', 'harold/_solvers.py:lyapunov_eq_solver'),
    ('block recursions', 'harold/_solvers.py:_solve_continuous_lyapunov and '
     'the discrete and generalized variants')],
   tech='value numbering by abstract interpretation; residual compared with '
   'zero by random interpretation'),
 P('C25', 'Partition, kernel and singular value helpers satisfy their identities',
   'The four blocks of a matrix partition are the blocks of the matrix with '
   'the requested corner shape, unit vectors are the chosen columns or rows '
   'of the identity, and the stacked state matrix is [A B; C D].  A kernel '
   'basis is orthonormal, is annihilated by the matrix and has the right '
   'number of vectors; singular value factors are orthogonal, multiply to '
   'the matrix and report its rank.',
   ['inputs', 'configurations'],
   'matrices up to 4x2 of every rank, every corner and corner shape, every '
   'tested index form, arrays and nested lists, any content of that rank',
   'The answer depends on shape, rank, corner and side together; tests use '
   'one or two matrices each.',
   [('partition', 'harold/_aux_linalg.py:matrix_slice'),
    ('unit vectors', 'harold/_aux_linalg.py:e_i'),
    ('kernel', 'harold/_aux_linalg.py:haroldker'),
    ('singular values', 'harold/_aux_linalg.py:haroldsvd'),
    ('stacked matrix', 'harold/_system_funcs.py:concatenate_state_matrices')],
   tech='value numbering by abstract interpretation; factorizations '
   'interpreted exactly in GF(p)'),
 P('C27', 'LQR gains are optimal and Ackermann gains place the poles',
   'The regulator design returns the Riccati solution of the cost its '
   'arguments describe, the gain formed with it and the spectrum of A-BK, '
   'for continuous and discrete models, state and output weighting (in any '
   'letter case) and with or without cross weight.  Pole placement returns '
   'a gain whose closed loop has exactly the given locations.  Unknown '
   'weighting names, weights that do not fit, static gains, models with '
   'several inputs, uncontrollable pairs and a wrong number of poles are '
   'rejected with ValueError.',
   ['inputs', 'configurations'],
   'State up to 3 states, 2 inputs and 2 outputs, Transfer, weights as '
   'array, list or number, real and complex pole locations, any content in '
   'general position',
   'The gain depends on every entry of model and weights; tests check few '
   'numeric examples and not the cross weight or letter case.',
   [('lqr', 'harold/_static_ctrl_design.py:lqr'),
    ('ackermann', 'harold/_static_ctrl_design.py:ackermann')],
   tech='value numbering by abstract interpretation, compared by random '
   'interpretation'),
 P('C28', 'Kalman matrices, ranks and verdicts agree with the structure',
   'The controllability matrix is [B AB ... A^(n-1)B] and the observability '
   'matrix its dual; the transformation returned with it is orthogonal and '
   'compresses it, zero rows or columns last, and the compressed result is '
   'that product.  The reported rank and the yes/no verdicts are those of '
   'the pair.',
   ['inputs', 'configurations'],
   'up to 3 states in every tested controllable/observable structure, up to '
   '3 channels, State, array pairs and nested lists, any content in general '
   'position within the structure',
   'Tests use full rank examples, where a transposed or unordered factor '
   'goes unnoticed.',
   [('controllability_matrix', 'harold/_kalman_ops.py:controllability_matrix'),
    ('observability_matrix', 'harold/_kalman_ops.py:observability_matrix'),
    ('verdicts', 'harold/_kalman_ops.py:is_kalman_controllable')],
   tech='value numbering by abstract interpretation; singular values '
   'interpreted exactly in GF(p)'),
 P('C29', 'Staircase, Hessenberg and Kalman forms are similar to the model',
   'The matrices of a staircase, Hessenberg or Kalman form are those of the '
   'given model in the coordinates of the returned transformation, which is '
   'orthogonal; without a transformation the input/output behaviour '
   'is the same.  The entries that the form requires to be zero are zero.',
   ['inputs', 'configurations'],
   'up to 3 states in every tested controllable/observable structure, up to '
   '2x2, controller and observer form, inverted or not, every output form, '
   'any content in general position within the structure',
   'Uncontrollable or unobservable parts, several channels and the '
   'transformation are rarely combined in tests.',
   [('staircase', 'harold/_system_funcs.py:staircase'),
    ('hessenberg', 'harold/_system_funcs.py:hessenberg_realization'),
    ('kalman', 'harold/_kalman_ops.py:kalman_decomposition')],
   tech='value numbering by abstract interpretation; factorizations '
   'interpreted exactly in GF(p)'),
 P('C33', 'Polynomial helpers satisfy their defining identities',
   'Sums, products, quotients with remainders, polynomials from roots, '
   'greatest common divisors and least common multiples, returned as coefficients, satisfy the defining '
   'identity of the operation for arrays, lists and integer '
   'coefficients with leading or trailing zeros.  The characteristic '
   'polynomial of a companion matrix is the monic polynomial; the '
   'multipliers returned with a least common multiple turn each '
   'argument into it.',
   ['inputs', 'configurations'],
   'up to 4 polynomials up to degree 3, every tested pattern of zeros and '
   'of common factors, any coefficients',
   'Zero patterns, common factors and argument forms multiply; tests use a '
   'few.',
   [('sum', 'harold/_polynomial_ops.py:haroldpolyadd'),
    ('product', 'harold/_polynomial_ops.py:haroldpolymul'),
    ('quotient', 'harold/_polynomial_ops.py:haroldpolydiv'),
    ('companion', 'harold/_polynomial_ops.py:haroldcompanion'),
    ('divisor', 'harold/_polynomial_ops.py:haroldgcd'),
    ('from roots', 'harold/_polynomial_ops.py:haroldpoly'),
    ('common multiple', 'harold/_polynomial_ops.py:haroldlcm')],
   tech='value numbering by abstract interpretation, compared by random '
   'interpretation'),
 P('C32', 'Low-frequency gains are the response at the steady-state point',
   'The low-frequency gain of a model is its transfer matrix at s = 0 for '
   'continuous and z = 1 for discrete models, after integrators common to '
   'numerator and denominator, and uncontrollable or unobservable states, '
   'are cancelled.  Entries that keep an integrator are infinite.',
   ['inputs', 'configurations'],
   'State up to 3 states in every tested controllable/observable structure '
   'and decoupled ones with integrators, SISO Transfer with up to 2 '
   'integrators on either side, 1x2 and 2x1 Transfer, static gains, '
   'continuous and discrete, any content in general position',
   'The cancellations depend on where the integrators are, the channel and '
   'the time domain; tests use a handful of models.',
   [('Transfer', 'harold/_classes.py:Transfer.dcgain'),
    ('State', 'harold/_system_funcs.py:dcgain')],
   tech='value numbering by abstract interpretation, compared by random '
   'interpretation'),
 P('C34', 'Minimal realizations keep the behaviour and drop the rest',
   'The minimal realization of a model has the same transfer matrix, '
   'sampling period and representation.  A state model is left with exactly '
   'as many states as its controllable and observable part (none: a static '
   'gain), and the entries of a fraction with no common roots, each pair of '
   'equal roots being cancelled once.',
   ['inputs', 'configurations'],
   'State up to 3 states in every tested controllable/observable structure, '
   'up to 2x2, continuous and discrete, any content in general position '
   'within the structure; fractions up to degree 3 with real, complex and '
   'multiple roots in any tested pattern of cancellation and order, any '
   'gain, one or two channels',
   'The two removal loops run different numbers of times for each '
   'structure, the cancellation branches on the pattern of roots; tests use '
   'few.',
   [('minimal_realization', 'harold/_system_funcs.py:minimal_realization'),
    ('removal', 'harold/_system_funcs.py:_minimal_realization_state'),
    ('cancellation',
     'harold/_system_funcs.py:_minimal_realization_simplify')],
   tech='value numbering by abstract interpretation; factorizations '
   'interpreted exactly in GF(p)'),
 P('C24', 'Constructors build the described model or refuse',
   'A transfer or state model built from numbers, lists, nested lists or '
   'arrays has exactly the fractions or matrices the arguments spell out '
   '(leading zeros are void, a common numerator or denominator applies to '
   'every channel, an omitted feedthrough is zero, a single argument is a '
   'static gain), holds real floats and knows whether it is a static gain.  '
   'Arguments that describe no causal real model, have a zero denominator '
   'or do not fit together are refused.',
   ['inputs', 'configurations'],
   'every documented argument form of both arguments, patterns of zeros up '
   'to degree 3, up to 3x2 channels and 3 states, any coefficients; all '
   'single misfits of the matrix sizes',
   'The forms of the two arguments, zero patterns and channel counts '
   'multiply; tests use one of each.',
   [('Transfer', 'harold/_classes.py:Transfer.validate_arguments'),
    ('State', 'harold/_classes.py:State.validate_arguments')],
   tech='value numbering by abstract interpretation, compared by random '
   'interpretation'),
 P('C30', 'Plots show every channel of every model',
   'Step, impulse, Bode and Nyquist plots of one or several models draw, '
   'for every model and every input/output channel, one curve of exactly '
   'that response on the axes of that channel, in the requested units, with '
   'the style of that model and the documented label.  No model is left out '
   'however many there are, and negative frequencies and lines at the '
   'Nyquist frequency appear exactly when they should.',
   ['inputs', 'configurations'],
   'any model data, 1 to 11 models of mixed kinds and shapes up to 2x3, all '
   'unit options, style lists shorter and longer than the list of models',
   'Tests cannot look at pictures; the models, shapes, styles and options '
   'multiply.',
   [('step_response_plot', 'harold/_time_domain_plots.py:step_response_plot'),
    ('impulse_response_plot', 'harold/_time_domain_plots.py:impulse_response_plot'),
    ('bode_plot', 'harold/_frequency_domain_plots.py:bode_plot'),
    ('nyquist_plot', 'harold/_frequency_domain_plots.py:nyquist_plot')],
   tech='effect analysis of the drawing calls, value numbering of the '
   'plotted data'),
 P('C35', 'Poles, zeros and the pole table belong to the model',
   'The poles of a model are the eigenvalues of its state matrix or the '
   'roots of its denominator and the zeros of a single-channel fraction the '
   'roots of its numerator, also after the data of the model is replaced; '
   'static gains have none.  The pole table has one row per pole with its '
   'natural frequency and damping ratio, computed from the equivalent '
   'continuous pole for sampled models, and frequency 0 and damping NaN for '
   'integrators.',
   ['inputs', 'histories'],
   'any data, up to 4 states or degree 4, continuous and sampled models of '
   'any period, replaced numerators, denominators and state matrices, real '
   'and complex poles and integrators in any order',
   'Tests use one model; the pole table is not tested.',
   [('State', 'harold/_classes.py:State._recalc'),
    ('Transfer', 'harold/_classes.py:Transfer._recalc'),
    ('pole table', 'harold/_classes.py:_pole_properties')],
   tech='value numbering by abstract interpretation, compared by random '
   'interpretation'),
 P('C36', 'System norms: H2 value, unstable models, static gains',
   'The 2-norm of a stable model is the root-mean-square gain given by its '
   'Gramian, including the feedthrough of sampled models, and infinite for a '
   'continuous model with feedthrough.  Both norms are infinite exactly when '
   'a pole lies on or outside the stability boundary, the infinity norm of '
   'a static gain is its largest singular value, and other norms are refused.',
   ['inputs'],
   'up to 2 states with real, repeated and complex poles inside, on and '
   'outside the stability boundary, any input, output and feedthrough data '
   'up to 2x2 (gains up to 2x3), continuous and sampled, both kinds of model',
   'Tests use two continuous models; discrete models, gains and boundary '
   'poles are not reached.',
   [('system_norm', 'harold/_system_props.py:system_norm'),
    ('stability', 'harold/_classes.py:State._set_stability')],
   tech='value numbering by abstract interpretation, compared by random '
   'interpretation'),
 P('C40', 'Controllability indices are the chain lengths of the inputs',
   'The controllability indices of a pair have one entry per input and add '
   'up to the dimension of the controllable part.  Decoupled chains of '
   'integrators give their lengths in the order of the inputs, inputs that '
   'add nothing have index zero, in general position the indices differ by '
   'at most one, and arguments that do not fit together are refused.',
   ['inputs'],
   'up to 4 states and 3 inputs, every tested controllable/uncontrollable '
   'structure, dependent inputs, chains of all tested lengths with and '
   'without a further mode, any content in general position within the '
   'structure, arrays and nested lists',
   'The number of search steps and the pivot order depend on the data; the '
   'tests use eleven pairs.',
   [('controllability_indices',
     'harold/_system_props.py:controllability_indices')],
   tech='value numbering by abstract interpretation; factorizations '
   'interpreted exactly in GF(p), all pivot orders'),
 P('C41', 'Transmission zeros are where the system matrix loses rank',
   'The transmission zeros of a square model are the roots, with '
   'multiplicity, of the determinant of its system matrix, those of a '
   'non-square model the common zeros of its channels.  A model whose '
   'inputs or outputs are disconnected from the states has none.',
   ['inputs'],
   'up to 4 states, 1x1, 2x2, 1x2 and 2x1, feedthrough of every rank, '
   'relative degree up to 3, uncontrollable or unobservable states, common '
   'channel factors, any content in general position within the structure',
   'The deflation takes a different number of steps and slices for each '
   'rank structure; tests use a few examples.',
   [('transmission_zeros', 'harold/_classes.py:transmission_zeros'),
    ('deflation', 'harold/_classes.py:_tzeros_reduce')],
   tech='value numbering by abstract interpretation; factorizations '
   'interpreted exactly in GF(p)'),
]

NA = [
 (P('C37', 'Infinity norm of dynamic models is accurate',
    'The infinity norm of a stable dynamic model is the supremum of the '
    'largest singular value of its frequency response, within the requested '
    'tolerance, and the returned frequency attains it.',
    ['inputs'], 'all stable models',
    'Tests compare a handful of models.',
    [('system_norm', 'harold/_system_props.py:system_norm')]),
  'The value is the limit of an iteration stopped by tolerances on computed '
  'eigenvalues; a source-level analysis sees the formula of one step but not '
  'which eigenvalues lie on the axis, so no rule separates right from wrong '
  'answers.'),
 (P('C38', 'Conversions are numerically accurate',
    'Converting a model between representations or to discrete time and back '
    'changes its response by no more than the conditioning of the data '
    'explains.',
    ['inputs'], 'all models, in particular of high order or bad scaling',
    'Tests use well scaled models of low order.',
    [('transfer_to_state', 'harold/_classes.py:transfer_to_state'),
     ('state_to_transfer', 'harold/_classes.py:state_to_transfer'),
     ('discretize', 'harold/_discrete_funcs.py:discretize')]),
  'The analyser works in exact arithmetic; rounding error bounds of LAPACK '
  'based algorithms are outside of what it can derive from the source.  The '
  'exact counterparts are C09, C10, C16 and C31.'),
 (P('C39', 'Default time and frequency grids show the dynamics',
    'When no grid is given, the generated time or frequency samples cover '
    'the fast and the slow modes of the model.',
    ['inputs'], 'all models',
    'Tests only look at the shape of the result.',
    [('frequency grid', 'harold/_frequency_domain.py:_get_freq_grid'),
     ('time grid', 'harold/_time_domain.py:_compute_tfinal_and_dt')]),
  'A heuristic without an exact specification: any rule would restate the '
  'constants of the present code.'),
]
