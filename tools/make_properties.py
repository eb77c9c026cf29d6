"""Regenerates /verif/properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
P = []
S3 = 'casadi_extras/structure3.py'
COL = 'casadi_extras/collocation/collocation.py'
POL = 'casadi_extras/collocation/polynomial.py'
PWP = 'casadi_extras/collocation/piecewise_poly.py'
BUT = 'casadi_extras/collocation/butcher.py'
DAE = 'casadi_extras/dae_model.py'
INQ = 'casadi_extras/inequality.py'
TRJ = 'casadi_extras/system_trajectory.py'

def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          'mechanism': [dict(name=n, where=w) for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})

p('C01', 'Structure layout is a gap-free, order-respecting bijection',
  'For every structure declaration (shapes, sparsity patterns, repeats of any rank, nesting, interleaving groups, explicit order), the flat vector has exactly one position per structural nonzero of every entry, filled in declared order and column-major inside a matrix, and its length is the reported size. '
  'The flat-index, index-matrix, canonical-index (every extra mode) and label look-ups all describe this one bijection and invert each other. '
  'Declarations that are contradictory (duplicate or unknown names, conflicting or unknown keywords, malformed shapes or non-integer repeats, an order that does not list every entry exactly once) and out-of-range look-ups are rejected with an exception.',
  ['inputs', 'configurations'], 'every structure declaration; bounded here by entry alphabets, nesting depth 3 and at most 3 to 4 entries per level',
  'The struct tests use one flat declaration with two dense vector entries; no nesting, repeat, group, order, sparsity or index look-up is ever exercised.',
  [S3], [('canonical index traversal, interleaving and index map', S3 + ': Structure.traverseCanonicalIndex, CasadiStructure.__init__'), ('look-up table', S3 + ': getCanonicalIndex, getLabel'), ('entry keyword validation', S3 + ': CasadiStructEntry.__init__, EntryList')],
  ['struct.size, struct.i, struct.f, getCanonicalIndex, canonicalIndices, labels'],
  [('map', 'canonical index to matrix of flat positions', 'CasadiStructure.map'), ('lookuptable', 'flat position to canonical index', 'CasadiStructure.lookuptable')])

p('C02', 'A power-index read returns exactly the addressed elements, in every flavour',
  'Reading any structured object (numeric, SX, MX, purely symbolic, expression-based, mutable) with any power index made of names, integers, slices, lists, ellipsis, dict/set/nested-dict markers, callables, delegated (structure-shaped) indices and trailing matrix indices returns the elements of the flat vector the layout assigns to that index, in the container shape and matrix shape and sparsity the index denotes. '
  'Every flavour of the same structure gives the same answer, through the object or through a prefix of it, and reading changes nothing. '
  'An index addressing something that does not exist raises an exception.',
  ['inputs', 'configurations'], 'every structure declaration and every power index; bounded here to all index words over a fixed alphabet per level for a family of declarations',
  'Existing tests read whole top-level dense entries of numeric structs only; repeats, nesting, slices, callables, delegation, sparse and symbolic flavours are unreached.',
  [S3], [('power index traversal', S3 + ': StructEntry.traverseByPowerIndex, Structure.traverseByPowerIndex'), ('getter dispatch', S3 + ': GetterDispatcher, performExtraIndex, delegation, correct_vector_indexing'), ('MX part map', S3 + ': VertsplitStructure.buildMap'), ('prefix', S3 + ': Prefixer')],
  ['__getitem__ of struct objects and prefixes'])

p('C03', 'A power-index write changes exactly the addressed elements, over any history',
  'After any sequence of writes to mutable structures, every element holds the value last assigned to it through any index that addressed it, all other elements and all other structures (also those sharing the same declaration) are unchanged, and what is then read back through any index, or taken as the flat vector, reflects all the writes. '
  'Scalars broadcast; lists, dicts and repeated values are distributed over the addressed positions and keys. '
  'A value that does not fit the addressed element (wrong dimensions, too short a list, unknown key) raises an exception and leaves a single addressed element as it was.',
  ['histories', 'inputs'], 'every history of writes over every index and payload form; bounded here to all histories up to depth 3 over an operation alphabet, on numeric, SX and MX mutable structures',
  'The tests assign each field once through a dict; no test writes twice, writes through a nested or partial index, or reads a mutable symbolic struct after a write.',
  [S3], [('setter dispatch', S3 + ': SetterDispatcher, payloadUnpack, MatrixStruct, MXStruct'), ('callable set', S3 + ': SetterDispatcher.callableOuter')],
  ['__setitem__, __getitem__, cat'], [('master', 'flat storage', 'MatrixStruct.master'), ('priority_object_map', 'cached MX parts', 'VertsplitStructure.buildMap')])

p('C04', 'Casting data to a structure puts every value into its own field',
  'Casting a dict, a scalar, a flat vector (numeric, SX or MX) or nothing to a structure yields an object with that declaration whose flat vector and fields hold exactly the given values: dict values by key independent of key order, numeric scalars broadcast, vectors position by position. '
  'Splitting a numeric matrix by a structure of unrepeated fields returns, per field, the field of each column side by side. '
  'Data whose keys or dimensions do not match the structure raises an exception instead of being truncated, padded or misplaced.',
  ['inputs', 'configurations'], 'every declaration and every castable value; bounded to the declaration family and all key permutations, payload kinds and wrong sizes/key sets up to the bound',
  'Two casts and one parseMatrix on one declaration of two vectors; key order, nested, grouped, matrix-valued fields, MX/SX data and off-by-one sizes are not sampled.',
  [S3], [('cast', S3 + ': CasadiStructureDerivable.__call__, argtype'), ('parseMatrix', S3 + ': CasadiStructureDerivable.parseMatrix'), ('dimension check', S3 + ': MatrixStruct.__init__')],
  ['struct.__call__, parseMatrix'])

p('C05', 'Structured matrix views address and alias the right block of the matrix',
  'Viewing a matrix through the repeated, squared, product or squared-repeated form of a structure gives, for every index, the sub-block selected by the structure on rows (and columns, and repetition), for numeric, SX and MX matrices. '
  'Over any history of writes through the view, exactly the addressed elements of the underlying matrix change and every other index of the view sees the change, and the view converts back to the full matrix. Changes made meanwhile to that matrix directly or through another view of it are never undone by a write through the view, and a view of a numeric or SX matrix sees them at once. '
  'Matrices whose dimensions do not match the structure are rejected.',
  ['histories', 'inputs', 'configurations'], 'every declaration, matrix, index and write history; bounded to small declarations, 1 to 3 repetitions and histories up to depth 2 or 3',
  'No existing test touches any matrix view.',
  [S3], [('view construction', S3 + ': CasadiStructureDerivable.repeated/squared/product/squared_repeated'), ('data references', S3 + ': DataReference*'), ('delegated indices', S3 + ': delegation, Delegater*'), ('cast back', S3 + ': Prefixer.cast')],
  ['repeated(), squared(), product(), squared_repeated() and reads/writes through them'])

p('C06', 'Symmetric entries always read as symmetric matrices',
  'An entry declared symmetric stores only its upper triangle, yet any read of it, whole, element, row, column, block or linear, in every flavour, sees the full symmetric matrix, so that element (i,j) always equals element (j,i). '
  'Writing an element writes both mirrored positions; writing a whole symmetric matrix reproduces it on read-back; no other entry changes. '
  'Payloads of wrong dimensions are rejected.',
  ['histories', 'inputs'], 'every size, index and write history; bounded to sizes 1 to 4 (dense and sparse patterns), all index pairs and histories up to depth 3',
  'No existing test declares a symmetric entry.',
  [S3], [('symmetric storage', S3 + ': CasadiStructEntry (type=symm)'), ('mirrored read', S3 + ': GetterDispatcher'), ('mirrored write', S3 + ': SetterDispatcher')],
  ['__getitem__/__setitem__ on symm entries'])

p('C07', 'Saved and pickled structures load back as the same structures',
  'Pickling or saving to file and loading any structure declaration or numeric structured value yields an object with the same size, layout, order, labels and values, that can be read, written, cast and pickled again exactly like the original. '
  'This holds for several objects in one pickle whether or not they share a declaration, and saving does not alter the originals; writes to a loaded copy do not affect the original and vice versa.',
  ['histories', 'inputs', 'configurations'], 'every declaration, value and history of write/save/load steps; bounded to the declaration family and histories up to depth 3 with at most 3 objects per pickle',
  'No existing test pickles or saves anything.',
  [S3], [('pickle state', S3 + ': __getstate__/__setstate__ of CasadiStructure, CasadiStructured, DMStruct, CasadiStructEntry, Prefixer'), ('file io', S3 + ': save, struct_load')],
  ['pickle.dumps/loads, save(), struct_load()'], [('initializer', 'constructor arguments kept for pickling', 'CasadiStructure.initializer')])

p('C08', 'Expression structures always equal the concatenation of their parts',
  'A structure built from symbolic expressions (or filled part by part in any order, with any overwriting) has as its flat vector exactly the current expressions of all its parts in layout order, column-major with structural zeros dropped, as a function of the symbols they contain; each field read gives back an equal expression. '
  'Purely symbolic structures are valid function inputs whose fields partition the flat symbol, using user-supplied symbols where given. '
  'Incomplete structures, parts of the wrong shape or sparsity and inappropriate entry kinds are rejected.',
  ['histories', 'inputs', 'configurations'], 'every declaration and fill history; bounded to all fill/overwrite/read orders up to depth 4 over small declarations',
  'Only the collocation tests use expression structures indirectly, filled once in declaration order.',
  [S3], [('part storage and concatenation', S3 + ': MXVeccatStruct'), ('symbol creation', S3 + ': ssymStruct, msymStruct'), ('expression entries', S3 + ': CasadiStructEntry (expr, sym), SXStruct')],
  ['struct_MX, struct_SX, struct_symSX, struct_symMX: cat, __getitem__, __setitem__, use in casadi.Function'],
  [('storage/dirty', 'current expression per part and concatenation cache flag', 'MXVeccatStruct')])

p('C09', 'Lagrange basis interpolation is exact for polynomials and nodal values',
  'For any set of distinct nodes in any order, the basis interpolates: the interpolation matrix at a node is the corresponding unit row, and applying it to samples of any polynomial of degree below the number of nodes gives the polynomial value at every query point, inside or outside the node range, near or at nodes. '
  'The basis polynomials, composed polynomials and the barycentric and monomial interpolators represent this same interpolant.',
  ['inputs'], 'every node set, query point and polynomial; bounded to all node subsets/permutations of a grid up to 5 or 6 nodes plus the standard families up to order 12 or more, all monomials, and a fixed query grid including nodes and near-node points',
  'Tests check two order-3 node sets at the interval ends only.',
  [POL], [('barycentric interpolation', POL + ': PolynomialBasis.interpolationMatrix'), ('Lagrange polynomials', POL + ': PolynomialBasis.__init__, compose'), ('interpolators', POL + ': polynomialInterpolator, barycentricInterpolator')],
  ['PolynomialBasis.interpolationMatrix, poly, compose, order, numPoints; polynomialInterpolator; barycentricInterpolator'])

p('C10', 'Differentiation matrices and collocation grids are exact',
  'For any set of distinct nodes, the differentiation matrix applied to the samples of a polynomial of degree below the number of nodes gives its exact derivative at the nodes, up to rounding also for large node counts. '
  'Collocation grids start at 0, increase strictly, stay within [0, 1] and have order + 1 points of the requested family; the Chebyshev helper maps grid and matrix affinely to any interval, reversed ones included.',
  ['inputs', 'configurations'], 'every node set, order, family and interval; bounded to all subsets/permutations of a node grid up to 5 or 6 nodes, orders up to 30 and an interval family',
  'Tests check four Chebyshev matrices on one interval and one smooth function.',
  [POL], [('differentiation matrix', POL + ': PolynomialBasis.__init__'), ('grids', POL + ': collocationPoints'), ('cheb', POL + ': cheb')],
  ['PolynomialBasis.D, collocationPoints, cheb'])

p('C11', 'Butcher tableaux integrate all polynomials their nodes allow',
  'For any distinct collocation nodes in any order, the tableau keeps the nodes as given and its matrix and weights integrate every polynomial of degree below the number of nodes exactly from 0 to each node and from 0 to 1; for Gauss-Legendre and Radau nodes the weights reach the full order of the method. '
  'The named-method constructor equals the node-based one on the corresponding nodes, and tableaux of inconsistent dimensions are rejected.',
  ['inputs', 'configurations'], 'every node set, order and method; bounded to all permutations/subsets of a node grid up to 5 or 6 nodes and both methods up to order 9',
  'Tests sample Legendre nodes of order 1 to 4 with one random polynomial.',
  [BUT], [('tableau construction', BUT + ': butcherTableuForCollocationPoints, butcherTableuForCollocationMethod'), ('validation', BUT + ': ButcherTableau.__init__')],
  ['ButcherTableau A, b, c'])

p('C12', 'Piecewise polynomial evaluation uses the right piece at every point',
  'Evaluating a piecewise polynomial at any point returns the value of the piece whose interval contains it, with the basis mapped affinely to that interval; exactly at an interior break the left or right piece is used as requested, and outside the range the first or last piece is extended. '
  'A vector of query points in any order gives the per-point results side by side, one row per component. '
  'Inconsistent interval/coefficient counts and unknown continuity names are rejected.',
  ['inputs', 'configurations'], 'every break grid (uniform or not), coefficients, basis and query; bounded to all small grids over an alphabet of interval lengths, up to 4 intervals, several bases, coefficient basis vectors (by linearity) and all query points of a grid including every break and its floating-point neighbours',
  'Tests evaluate four functions with equal-length intervals at a handful of points.',
  [PWP], [('interval search and mapping', PWP + ': PiecewisePoly.__call__')], ['PiecewisePoly.__call__'])

p('C13', 'Derivative, interval polynomials and sampling agree with the function itself',
  'The derivative of a piecewise polynomial is, on every interval, the exact derivative of that piece with respect to the original variable, and can be repeated; the polynomials of interval n, taken at the offset from its left end, equal the function on that interval whatever their degree. '
  'Discretization returns points covering every interval in order, always including both ends of each, never further apart than the step, with values equal to that piece at those points; none of these operations changes the original.',
  ['inputs', 'configurations', 'histories'], 'every break grid, coefficients, basis and step; bounded as for evaluation, with degenerate-degree coefficients, integer data and steps below, at and above the interval length, and operation sequences up to depth 3',
  'derivative() is untested, discretize() is only plotted, poly() is checked for one random function.',
  [PWP], [('derivative', PWP + ': PiecewisePoly.derivative'), ('poly', PWP + ': PiecewisePoly.poly'), ('discretize', PWP + ': PiecewisePoly.discretize')],
  ['derivative(), poly(), discretize()'])

p('C14', 'Differential quadrature differentiates and integrates exactly on its grid',
  'On any ascending grid of intervals and any order, with node families that contain both interval ends, the collocation points are the mapped nodes of each interval with shared ends listed once; differentiating samples of a piecewise polynomial of the given order gives its derivative at every point but the last (from the right at breaks), and integrating derivative samples gives back the function minus its initial value at every point but the first. '
  'Inputs held constant per interval are expanded to one value per non-final point of their interval. '
  'Non-ascending grids and wrongly sized inputs are rejected.',
  ['inputs', 'configurations'], 'every interval grid, order and family; bounded to grids over an alphabet of lengths with up to 4 intervals, orders 1 to 6, and all monomials/unit data by linearity',
  'All tests of this class are skipped by the project.',
  [COL], [('grid and big matrix', COL + ': Pdq.__init__'), ('operators', COL + ': Pdq.derivative, integral, expandInput')],
  ['Pdq.collocationPoints, intervalBounds, numIntervals, polyOrder, t0, tf, intervalLength, derivative, integral, expandInput'])

p('C15', 'Trajectory interpolation honours nodes, intervals and the continuity side',
  'For any interval grid and order, with node families that contain both interval ends, the quadrature interpolator evaluated at time t uses the interval containing t and reproduces the data at the nodes and any polynomial of the allowed degree between them; continuity both/left/right decides which nodes carry data and which side wins at breaks; outside the range the end piece is extended. '
  'A system trajectory returns its state with both-sided and its algebraic state and input with right-sided continuity, each from its own data, for any number of components and query times in any order. '
  'Data with the wrong number of columns and unknown continuity names are rejected.',
  ['inputs', 'configurations'], 'every grid, order, continuity, data and query; bounded as for the grid property, with unit data by linearity and queries at every node, break, midpoint and outside',
  'One trajectory with order 1 and scalar data is tested; left continuity, higher orders and multi-component data never are.',
  [COL, TRJ], [('interpolator', COL + ': _PdqInterpolator'), ('trajectory', TRJ + ': SystemTrajectory')],
  ['Pdq.interpolator, SystemTrajectory.state/algState/input/time'])

p('C16', 'Collocation equations vanish exactly at the discretised dynamics',
  'For any DAE, interval grid, order and method, the equation residual evaluated at any values of the variables is, column by column, the implicit DAE residual at each collocation point (with the state there given by the interval start state plus step-scaled tableau combination of the derivatives of that interval only), followed by the continuity defects of every interval end, in the documented structure. '
  'The exposed state at collocation points, collocation times and variable groups follow the same ordering and dimensions, and combining parts yields exactly those parts.',
  ['inputs', 'configurations'], 'every DAE, grid, order, method and variable value; bounded to a DAE family with every subset of x,z,u,p,t,tdp,quad present, grids with unequal lengths up to 4 intervals, orders 1 to 5, both methods',
  'Tests solve a handful of single-interval or uniform problems with zero or one input; a mis-scaled or mis-ordered multi-interval equation is not sampled.',
  [COL, BUT], [('scheme construction', COL + ': CollocationScheme.__init__, evalX, combine')],
  ['CollocationScheme eq, x, X, K, Z, u, U, p, t, tc, butcher, evalX, combine'])

p('C17', 'Each collocation point sees its own time, input, parameter and time-varying data',
  'In the collocation equations and quadrature derivatives of any DAE, the point j of interval i is evaluated at its own time, with the input of interval i, with the shared parameter (or its own copy when parameters are repeated, all copies then constrained equal) and with the time-dependent parameter function sampled at that time. '
  'Evaluation options (expansion, parallelization mode, parameter repetition, implicit or semi-explicit form) never change the values. '
  'A DAE with a time-dependent parameter but no function for it is rejected.',
  ['configurations', 'inputs'], 'every DAE, grid, order, method and option combination; bounded as above with the full product of options',
  'No test uses a parameter, a time-dependent parameter, parameter repetition, expand=False or non-serial maps; only one uses time.',
  [COL], [('point-wise map', COL + ': CollocationScheme.__init__ (U, tc, tdp_val, p, dae_map)')],
  ['CollocationScheme eq, quad, U, tc, p'])

p('C18', 'Quadrature states are the exact running integral of the quadrature rate',
  'For any grid, order and method, the quadrature at interval ends starts at zero and accumulates, interval by interval, the tableau-weighted and step-scaled quadrature rates; at each collocation point it equals the value at its interval start plus the tableau-row combination of that interval. '
  'Hence any quadrature rate that is polynomial of degree below the order is integrated exactly, and splitting the grid does not change the total.',
  ['inputs', 'configurations'], 'every quadrature, grid, order and method; bounded as above with vector quadratures and unit rates by linearity',
  'One single-interval scalar quadrature is tested, at the final time only.',
  [COL], [('quadrature accumulation', COL + ': CollocationScheme.__init__ (q, Q)')], ['CollocationScheme q, Q, quad; integrator qf, Q'])

p('C19', 'The collocation integrator solves the DAE for every grid and is composable',
  'For every DAE, interval grid, order and method, the integrator result satisfies the collocation equations from the given initial state with the given inputs and parameters: polynomial solutions within the order are reproduced exactly at all returned points, other solutions to the order of accuracy of the method. '
  'All outputs (end states, states, algebraic states, derivatives, quadratures, times) are mutually consistent, and integrating over consecutive intervals equals chaining single-interval integrations.',
  ['inputs', 'configurations', 'histories'], 'every DAE, grid, order, method, initial value, input and parameter; bounded to a DAE family (nilpotent polynomial chains, linear, time-dependent, nonlinear, algebraic, parametric, quadrature) and grids with up to 3 or 4 unequal intervals',
  'Tests check the final state of six problems, five of them on one interval, never a parameter or unequal intervals.',
  [COL], [('integrator construction', COL + ': CollocationIntegrator.__init__'), ('equations', COL + ': CollocationScheme')],
  ['collocationIntegrator(...) outputs xf, qf, X, Z, Q, x, K, tc'])

p('C20', 'The integrated trajectory passes through every state the integrator returns',
  'The continuous trajectory returned with an integration result is a piecewise polynomial on the integration grid which equals the start state of each interval, the end state of each interval where the method determines it, and the returned state at every collocation point, is continuous across intervals for exactly resolved solutions, and whose derivative at every collocation point equals the returned derivative. '
  'For a solution that is polynomial within the order it equals that solution at every time.',
  ['inputs', 'configurations'], 'every DAE, grid, order, method and initial value; bounded as for the integrator',
  'integrate() and piecewisePolyX() are not executed by any passing test.',
  [COL, PWP], [('trajectory', COL + ': CollocationScheme.piecewisePolyX, CollocationIntegrator.integrate')], ["integrate()['x_traj'], piecewisePolyX"])

p('C21', 'DAE models accept exactly the well-formed definitions and report them faithfully',
  'A DAE model is constructed if and only if its variables are purely symbolic, states, algebraic states, inputs and equations are columns, time is scalar, and the numbers of equations and unknowns match; any violation raises an exception. '
  'An accepted model reports exactly the given variables and their sizes, with absent ones empty, and creates functions mapping any named selection of its variables to any named selection of its expressions, in the requested order.',
  ['inputs', 'configurations'], 'every combination of present/absent variables, sizes and malformations; bounded to sizes 0 to 3, all subsets of optional arguments and all single (thorough: pairs of) malformations',
  'The tests only construct well-formed models of size one; no validation is tested.',
  [DAE], [('validation and accessors', DAE + ': Dae, SemiExplicitDae, ImplicitDae'), ('createFunction', DAE + ': Dae.createFunction')],
  ['SemiExplicitDae, ImplicitDae constructors, properties, createFunction'])

p('C22', 'Conversion to implicit form and parallel connection preserve the dynamics',
  'The implicit form of a semi-explicit model has residual (derivative minus right-hand side, then algebraic equations) for all values, the same variables and quadrature, and an implicit model converts to itself. '
  'Connecting time-invariant models in parallel gives a model whose variables are the models\' variables stacked in order, individually addressable, and whose equations and quadratures are those of the individual models on their own parts.',
  ['inputs', 'configurations'], 'every model and every list of models; bounded to models with all subsets of variables with sizes up to 3 and all lists of up to 3 (thorough 4) models and lists of up to 13 models',
  'No test calls makeImplicit directly on multi-dimensional models and none calls parallel.',
  [DAE], [('makeImplicit', DAE + ': SemiExplicitDae.makeImplicit, ImplicitDae.makeImplicit'), ('parallel', DAE + ': parallel')],
  ['makeImplicit(), parallel()'])

p('C23', 'An inequality always carries bounds and nominal of the shape of its expression',
  'For any expression, a constructed inequality has the given lower, upper and nominal values unchanged, element by element, minus/plus infinity where a bound is omitted, and no nominal where omitted; values whose shape differs from the expression raise an exception, for every combination of given and omitted parts. '
  'A bounded variable creates a fresh symbol of its name and the shape of its nominal value, carrying the given bounds; inequalities never share state.',
  ['inputs', 'configurations'], 'every expression shape and combination of bound kinds; bounded to shapes up to 3 by 3, all present/omitted/ill-shaped combinations and all value containers',
  'Tests sample column vectors of sizes 2 to 4 and one ill-shaped lower bound.',
  [INQ], [('normalisation and shape checks', INQ + ': Inequality.__new__, BoundedVariable.__new__')], ['Inequality, BoundedVariable fields, numel()'])

p('C24', 'Concatenated inequalities keep each bound attached to its expression',
  'Concatenating a list or a dict of inequalities yields one inequality in which every element of the expression has exactly the lower bound, upper bound and nominal value it had before, in the given order; the dict form lets every part be read back by its key from expression, bounds and nominal. '
  'Nesting concatenations is the same as concatenating flat, the operands are unchanged, and inequalities none of which has nominal values can be concatenated, giving none.',
  ['inputs', 'configurations', 'histories'], 'every sequence of inequalities; bounded to all lists/dicts of up to 4 inequalities over an alphabet of shapes and present/omitted parts, and all two-level nestings of those',
  'Two random concatenations of column vectors with all parts given are tested.',
  [INQ, S3], [('concatenation', INQ + ': vertcat')], ['inequality.vertcat'])

p('C25', 'Structured objects, prefixes and views stand for their own matrix in expressions',
  'Handed to a casadi function, operator function, conversion, concatenation or call, in any operand position and any number of times, a structured object behaves as its flat vector, a prefix of it as exactly the part it denotes at that time, and a structured matrix view as its matrix: same values, shape, sparsity and symbolic kind. '
  'A purely symbolic structure can be the input of a function or the variable of a derivative or substitution. A prefix denoting several matrices is rejected rather than replaced by another value.',
  ['inputs', 'configurations', 'histories'], 'every structured object, prefix and view and every casadi operation on it; bounded to the declared operations (37), declarations, views and histories of writes and expressions of the stated depth',
  'The tests pass structured objects to a few functions only; prefixes in expressions and the same object twice in one call are never tried.',
  [S3], [('casts and delegation', S3 + ': CasadiStructured, MasterGettable, Prefixer'), ('flat vector of struct_MX', S3 + ': MXVeccatStruct.master')], ['Structured.__MX__', 'Structured.__SX__', 'Structured.__DM__', 'Prefixer.cast', 'prefix'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P))
