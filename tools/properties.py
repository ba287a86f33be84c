"""Single source of properties.jsonl and MANIFEST.json: python3 tools/properties.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique, state=(), hook=None):
	P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
		anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
			state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=hook),
		_note=note, _technique=technique))


MODEL = 'trusts the 200 line bitmask reference model of the algebra (vf/ref.py), which shares no code with numga'
EXACT = 'integer operands, so agreement is exact; '

prop('C01', 'The geometric product is the product of the specified algebra',
	'For every algebra that can be described and every pair of multivectors over any subspaces and batch shapes, the geometric product equals the bilinear, associative product '
	'in which generators anticommute and square to their signature. This holds through every public spelling of the product, on single blades in any number of dimensions, and inside every library computation that uses it.',
	['inputs', 'configurations'], 'all signatures, generator names and orders; all pairs of subspaces; all coefficients and batch shapes; all entry points; products issued by composite library functions',
	'Tests multiply a handful of elements in a few algebras; sign and metric errors on particular blade pairs, in signatures with several negative or null generators, in more than eight dimensions or on partial subspaces stay invisible.',
	['numga/algebra/algebra.py', 'numga/algebra/bitops.py', 'numga/operator/factory.py', 'numga/operator/sparse_tensor.py', 'numga/backend/numpy/operator.py'],
	[('sign of reordering and metric contraction of blade pairs', 'numga/algebra/algebra.py: Algebra.product, numga/algebra/bitops.py'), ('product table restricted to subspaces', 'numga/operator/factory.py: geometric_product')],
	['MultiVector.product / * / context.operator.*product*', 'operator applications inside composite functions (traced context)'],
	EXACT + MODEL + '; signatures exhaustive up to four generators, sampled above', 'runtime oracle at the API boundary plus online tracing of operator applications against a reference model')

prop('C02', 'Grade-filtered products and commutators equal their definitions',
	'Outer, inner, contraction, scalar, commutator and all other grade-filtered products equal the stated selection of grades (or antisymmetrised combination) of the geometric product, for every algebra, pair of subspaces, coefficients and batch shape. '
	'Every spelling of the same product, infix operators included, gives the same result.',
	['inputs', 'configurations'], 'all signatures, subspaces of mixed grade, coefficients, batch shapes and spellings',
	'Tests evaluate these products on few full-grade operands, so an error for mixed or partial grades, for scalars, or in one alias is not seen.',
	['numga/operator/factory.py', 'numga/multivector/multivector.py', 'numga/algebra/algebra.py'],
	[('grade filters applied to product tables', 'numga/operator/factory.py'), ('infix operator overloads', 'numga/multivector/multivector.py')],
	['methods, infix operators and context.operator aliases'], EXACT + MODEL, 'runtime oracle at the API boundary against a reference model')

prop('C03', 'Involutions, complements and duals equal their definitions',
	'Reverse, grade involution, conjugations, complements, duals, their inverses and the degenerate/nondegenerate parts multiply each blade by exactly the sign, and map it to exactly the blade, that their definition prescribes in every algebra including degenerate ones. '
	'The defining identities hold: involutions undo themselves, duals and complements are undone by their inverses, a blade wedged with its complement is the pseudoscalar, and reversion reverses products.',
	['inputs', 'configurations'], 'all signatures including multiple null generators; all subspaces; coefficients; batch shapes',
	'Tests check a few algebras on full spaces; sign patterns depend on grade modulo four, dimension parity and generator order, most of which are never sampled.',
	['numga/operator/factory.py', 'numga/algebra/algebra.py', 'numga/algebra/bitops.py', 'numga/multivector/multivector.py'],
	[('grade dependent sign tables', 'numga/operator/factory.py: reverse, involute, conjugate'), ('complement and dual maps', 'numga/operator/factory.py: left/right complement, dual')],
	['unary methods and context.operator aliases'], EXACT + MODEL, 'runtime oracle at the API boundary plus metamorphic identities')

prop('C04', 'Complement-composed products equal the composition that defines them',
	'Regressive, anti-space, interior-type and cross products equal the composition of complements or duals with the product they are built from, for every algebra, pair of subspaces, coefficients and batch shape.',
	['inputs', 'configurations'], 'all signatures, subspaces, coefficients, batch shapes and spellings',
	'Tests use one or two of these products in 2d/3d projective geometry; sign conventions of complements only show up in other dimensions and grades.',
	['numga/operator/factory.py', 'numga/multivector/multivector.py'],
	[('products built by fusing complements', 'numga/operator/factory.py: regressive, anti_*')], ['methods, infix operators and context.operator aliases'],
	EXACT + MODEL, 'runtime oracle at the API boundary against a reference model')

prop('C05', 'Fused operations equal the nested evaluation they replace',
	'Squares, cubes, products of an element with its own involution, inverse factors, the sandwich family and inertia maps equal the nested evaluation of products and involutions that they stand for, when the same operand is used several times and when operands are distinct. '
	'Exploiting the symmetry of repeated operands never changes a value.',
	['inputs', 'configurations'], 'all signatures, operand subspaces, coefficients and batch shapes',
	'The symmetrised kernels are built per subspace combination; tests evaluate a few, with full subspaces.',
	['numga/operator/factory.py', 'numga/operator/operator.py'],
	[('symmetrisation of repeated operands', 'numga/operator/operator.py'), ('sandwich and fused kernels', 'numga/operator/factory.py')], ['methods and context.operator aliases; traced operator applications'],
	EXACT + MODEL, 'runtime oracle at the API boundary plus online tracing against a reference model')

prop('C06', 'Working on subspaces gives the same values as the full algebra, tightly',
	'Evaluating any operation on operands stored on small subspaces gives the same values as evaluating it on the same operands padded with zeros to any larger subspaces. '
	'The subspace reported for a result contains every blade that can be nonzero and none that is identically zero, and structural predicates (simplicity and the like) say exactly what holds for generic elements.',
	['inputs', 'configurations'], 'all operations; all signatures; all pairs small subspace / larger subspace; generic operands for support',
	'Sparsity inference happens per subspace combination; tests touch few combinations and never compare a specialised result with the unspecialised one.',
	['numga/operator/factory.py', 'numga/operator/operator.py', 'numga/subspace/subspace.py', 'numga/multivector/multivector.py'],
	[('output subspace inference', 'numga/operator/operator.py'), ('structural predicates', 'numga/subspace/subspace.py')], ['values and subspace of results'],
	EXACT + MODEL + '; tightness decided on random generic operands', 'metamorphic runtime comparison across operand subspaces plus support oracle')

prop('C07', 'Composing operators symbolically equals nesting their evaluation',
	'An operator obtained by composing, partially applying, adding, scaling, slicing, symmetrising, inverting or transposing operators evaluates, on every operand, to what performing the same steps on evaluated multivectors gives, in whatever order the composition was built.',
	['inputs', 'programs'], 'random expression trees and random composition orders over random signatures and subspaces, with batched operators',
	'Tests fuse a few fixed expressions; axis bookkeeping errors appear only for particular arities, orders, equal-sized axes or batched operators.',
	['numga/operator/operator.py', 'numga/operator/abstract.py', 'numga/multivector/types.py', 'numga/backend/numpy/operator.py'],
	[('fuse / bind / partial', 'numga/operator/operator.py, numga/backend/*/operator.py'), ('operator arithmetic', 'numga/operator/abstract.py')], ['evaluations of composed operators'],
	EXACT + MODEL, 'random operator programs, monitored against nested reference evaluation')

prop('C08', 'All backends and execution strategies compute the same thing',
	'The same operation on the same operands gives the same result on NumPy, JAX, PyTorch and plain Python, for every execution strategy (dense, einsum, sparse, generated code) and precision, up to rounding of that precision.',
	['inputs', 'configurations'], 'all backend/strategy/precision combinations; all operations; random signatures, subspaces, batch shapes',
	'Existing tests run most operations on one backend only; strategies branch on kernel structure (sparsity, sizes, broadcasting), which a sample of operations does not cover.',
	['numga/backend/numpy/operator.py', 'numga/backend/jax/operator.py', 'numga/backend/torch/operator.py', 'numga/backend/python/operator.py', 'numga/context.py', 'numga/multivector/extension/*.py'],
	[('execution strategies', 'numga/backend/*/operator.py'), ('scalar math of contexts', 'numga/backend/*/context.py')], ['results of the same call across backends'],
	'exact on integer operands; rounding-aware tolerances for derived functions; ' + MODEL, 'differential runtime monitoring across backends and strategies')

prop('C09', 'Batch axes are transparent: every operation acts entrywise and broadcasts',
	'Applying any operation to batched multivectors with broadcastable batch shapes gives, entry by entry, what applying it to the single entries gives, including the batch shape of the result. '
	'Indexing, stacking, reshaping, reordering and reducing over batch axes act on the batch axes alone, exactly as the same array operation would, and leave each entry intact.',
	['inputs', 'configurations'], 'all operations; batch shapes with unit, zero and mismatched rank axes; all structural operations and index forms; memory layouts',
	'Tests use one or two batch shapes; masks, branches and axis arithmetic fail only for particular ranks, zero-sized axes or per-entry conditions.',
	['numga/multivector/multivector.py', 'numga/multivector/types.py', 'numga/backend/numpy/multivector.py', 'numga/backend/torch/multivector.py', 'numga/multivector/extension/*.py'],
	[('batch axis handling', 'numga/multivector/multivector.py, numga/backend/*/multivector.py'), ('broadcasting of kernels', 'numga/backend/*/operator.py')], ['batched results against per-entry results'],
	'bitwise or exact for structural operations; rounding-aware for derived functions', 'metamorphic runtime monitor: batched versus entrywise, structural operations versus the array operation')

prop('C10', 'Evaluation never changes its operands or anything shared',
	'No operation changes the coefficients or subspace of its operands, nor any cached operator, constant or algebra shared with other users. Overwriting the result of one computation in place never changes the result of another.',
	['inputs', 'histories'], 'all operations on writable and write-protected operands; histories in which results are overwritten between computations',
	'Tests compare results once; an aliased cached array or an in-place update only shows after a later call.',
	['numga/multivector/multivector.py', 'numga/operator/operator.py', 'numga/operator/abstract.py', 'numga/subspace/subspace.py', 'numga/backend/numpy/context.py', 'numga/flyweight.py'],
	[('cached kernels and subspaces', 'numga/operator/factory.py, numga/subspace/*.py, cached properties'), ('copying constructors', 'numga/backend/*/context.py')], ['fingerprints of operands and of a panel of shared objects before and after calls'],
	'numpy operands are write protected so any write traps; torch and python operands are fingerprinted', 'write traps and fingerprint monitors over long call histories')

prop('C11', 'A subspace is a canonical set of blades',
	'Within an algebra, however a subspace is constructed, equal sets of blades give the very same object and different sets give different ones. Membership, set operations, ordering, naming, grade tests and index maps of subspaces agree with plain set arithmetic on blades.',
	['inputs', 'histories'], 'all construction routes in any order over any signature; live and garbage collected instances',
	'Identity is used as cache key everywhere; tests construct a few subspaces along one route.',
	['numga/subspace/subspace.py', 'numga/subspace/factory.py', 'numga/subspace/namespaces.py', 'numga/subspace/base.py', 'numga/flyweight.py', 'numga/algebra/bitops.py'],
	[('interning by blade set', 'numga/flyweight.py, numga/subspace/factory.py'), ('set operations and predicates', 'numga/subspace/subspace.py')], ['identity and content of constructed subspaces'],
	'every construction of a history is compared with the first one of that blade set', 'recorded construction histories checked against a set model',
	state=[('instances', 'weakly interned subspaces of an algebra', 'numga/flyweight.py')])

prop('C12', 'Multivectors form a graded vector space under sum, scalar and selection',
	'Addition, subtraction, scaling, selection, restriction and construction of multivectors act on coefficients blade by blade, whatever subspaces, scalars, batch shapes and orders of operands are involved, and the result subspace is exactly the union, target or restriction that was asked for. '
	'The vector space laws and the distributivity of products over sums hold.',
	['inputs', 'configurations'], 'all subspaces and pairs of subspaces, coefficients from 2**-60 to 2**40, scalars of all accepted kinds, batch shapes, construction routes, numpy/torch/jax',
	'Tests add few elements on equal subspaces; index maps between different subspaces are specific to each pair.',
	['numga/multivector/multivector.py', 'numga/multivector/factory.py', 'numga/multivector/namespaces.py', 'numga/multivector/helper.py', 'numga/context.py'],
	[('addition over unions of subspaces', 'numga/multivector/multivector.py'), ('selection and construction namespaces', 'numga/multivector/namespaces.py, numga/multivector/factory.py')], ['coefficients by blade and subspace of results'],
	EXACT + 'oracle is coefficient arithmetic by blade', 'runtime oracle at the API boundary plus algebraic laws')

prop('C13', 'Inverses and quotients solve the equation they stand for',
	'Every inverse the library computes for an invertible element, by whichever method its subspace and signature select, is its two-sided inverse, and division is multiplication by it. Elements that vanish at run time on part of their subspace are no exception.',
	['inputs', 'configurations'], 'all signatures up to five generators (simple elements above), all subspaces, all methods, batched elements of mixed structure',
	'Tests cover nondegenerate signatures with full grades; the method selected depends on subspace and signature, and errors appear for degenerate metrics, partial subspaces and particular values.',
	['numga/multivector/extension/inverse.py', 'numga/operator/factory.py', 'numga/multivector/multivector.py'],
	[('method selection by structure', 'numga/multivector/extension/inverse.py')], ['x times inverse(x) on both sides'],
	'elements whose multiplication matrix is well conditioned; tolerance scaled by the condition number; ' + MODEL, 'runtime oracle: defining equation in the reference model')

prop('C14', 'Norms and normalization satisfy their defining equations',
	'Squared norms equal the product with the reverse, the norm is its root where that root is real, and a normalized element has unit norm and spans the same ray as the original, for scalar-valued as well as study-number-valued norms. Scaling the argument by a positive number scales the norm and leaves the normalized element unchanged; an element whose squared norm is a negative number never gets a finite normalization.',
	['inputs', 'configurations'], 'all signatures up to five generators; all subspaces with scalar or study norm; coefficients incl. ones that vanish at run time, scales from 1e-12 to 1e12',
	'Tests normalize motors of a few algebras with full even subspaces.',
	['numga/multivector/extension/norms.py', 'numga/multivector/extension/roots.py', 'numga/multivector/numerical_normalize.py'],
	[('norm and normalization by structure of the norm', 'numga/multivector/extension/norms.py')], ['norm, normalized element and their defining equations'],
	'on entries whose root is real by a margin; ' + MODEL, 'runtime oracle: defining equations in the reference model')

prop('C15', 'Square roots square back to what they are roots of',
	'The square root of a study number or normalized motor squares to its argument and is the principal one, inverse square roots are the inverses of these, and geometric means lie halfway. Arguments whose nonscalar part vanishes at run time, or is absent, are no exception, and an argument without such a root never gets a finite wrong one.',
	['inputs', 'configurations'], 'all signatures up to five generators; study numbers over random blade sets; motors generated from full and partial bivectors',
	'Tests take roots of generic motors; run-time zeros, null parts and partial subspaces select other branches.',
	['numga/multivector/extension/roots.py', 'numga/multivector/extension/norms.py', 'numga/multivector/multivector.py'],
	[('study number roots and branch selection', 'numga/multivector/extension/roots.py')], ['square of the root, root of the exponential'],
	'roots real by a margin; ' + MODEL, 'runtime oracle: defining equations in the reference model')

prop('C16', 'Exponential and logarithm are the exponential series and its inverse',
	'The exponential of a bivector (or scalar, or other supported element) equals its power series, in every signature, including degenerate ones and elements that vanish or become null at run time, and the logarithm of a motor is a bivector whose exponential is that motor. '
	'The documented approximations agree with them to their documented order and preserve what they claim to preserve.',
	['inputs', 'configurations'], 'all signatures up to five generators; bivectors over full and partial blade sets; magnitudes from tiny to several radians; batch shapes',
	'Tests check random full bivectors of moderate size in a list of signatures; relative accuracy for tiny ones is not looked at; null, tiny, partial and mixed arguments take other branches.',
	['numga/multivector/extension/logexp.py', 'numga/multivector/extension/decompose.py', 'numga/multivector/extension/optimized.py'],
	[('closed-form exponentials by structure', 'numga/multivector/extension/logexp.py'), ('bisection and linear/quadratic approximations', 'numga/multivector/extension/logexp.py')], ['exp, log and round trips'],
	'exponential compared with a scaled Taylor series of the reference multiplication matrix; condition-aware tolerances', 'runtime oracle: independent series evaluation and round trips')

prop('C17', 'Decompositions recompose and their parts have the properties they promise',
	'Invariant, polar and motor decompositions return parts whose sum or product is the argument, and each part is of the promised kind: simple and mutually commuting bivectors, a factor of unit norm and one equal to its own reverse, a translation and a motion that fixes the chosen origin. ',
	['inputs', 'configurations'], 'all signatures up to five generators with the null generator at any position; full and partial bivectors; origins of any position and scale',
	'Tests decompose random full bivectors in canonical generator order.',
	['numga/multivector/extension/decompose.py', 'numga/operator/factory.py'],
	[('decompositions', 'numga/multivector/extension/decompose.py')], ['parts, their recomposition and their invariants'],
	'arguments regular by a margin; ' + MODEL, 'runtime oracle: recomposition and defining properties in the reference model')

prop('C18', 'Versors act as a group of grade-preserving isometries on everything',
	'The action of a versor or motor on any multivector is linear, preserves grades, products, norms and incidence, composes like the versors multiply, is undone by the inverse action, and equals the exact reflection formula, proper and improper versors alike. Precomputed maps, fused actions and every public spelling of the action agree with it.',
	['inputs', 'configurations'], 'all signatures up to eight generators; versors of any number of factors; operands on any subspaces; batch shapes',
	'Tests apply motors to vectors; sign conventions for odd versors and other grades, and fused kernels of particular subspaces, are not covered.',
	['numga/multivector/multivector.py', 'numga/operator/factory.py', 'numga/multivector/types.py'],
	[('sandwich and transform kernels', 'numga/operator/factory.py'), ('action methods', 'numga/multivector/multivector.py')], ['action laws evaluated by the library; exact action in the reference'],
	MODEL, 'metamorphic laws plus exact reference action')

prop('C19', 'Results never depend on what was computed before',
	'The outcome of a call depends on its arguments only: not on earlier calls, their order, failures in between, other algebras or contexts in the same process, or whether a cache is warm. '
	'An operation with registered specialisations uses the first one whose condition holds, also when it is registered after first use, and enabling optional optimized implementations does not change results.',
	['histories', 'configurations'], 'random call histories, permuted, repeated and isolated, over several algebras with equal names but different signatures; random registration and call interleavings',
	'Tests run each call once in one order; stale cache entries and key collisions need a particular sequence of calls.',
	['numga/dynamic_dispatch.py', 'numga/util.py', 'numga/flyweight.py', 'numga/operator/factory.py', 'numga/multivector/extension/optimized.py'],
	[('instance and class level caches', 'numga/util.py, functools caches'), ('condition dispatch with cache', 'numga/dynamic_dispatch.py')], ['outcomes of the same call across forked histories'],
	'outcomes compared bitwise between processes forked from the same state', 'recorded call histories in forked processes, compared pairwise; dispatch checked against a first-match model',
	state=[('dispatch cache', 'resolved specialisation per argument structure', 'numga/dynamic_dispatch.py')])

prop('C20', 'Descriptions mean what they say and naming is irrelevant',
	'Every accepted way of describing an algebra yields the generators, order and signature that were written, what it prints parses back to the same, and text that cannot be parsed is rejected. '
	'Printed tables and labels of subspaces state the truth, and renaming, reordering or adding unused generators changes no value.',
	['inputs', 'configurations'], 'all description styles, names, orders and signatures; isomorphic and embedded algebras; random expressions',
	'Tests use two descriptions and never compare an algebra with its relabelling.',
	['numga/algebra/description.py', 'numga/algebra/algebra.py', 'numga/subspace/subspace.py', 'numga/operator/operator.py'],
	[('parsing and printing of descriptions', 'numga/algebra/description.py'), ('text tables and labels', 'numga/operator/operator.py, numga/subspace/subspace.py')], ['parsed descriptions, text output, expressions across isomorphic algebras'],
	MODEL, 'round-trip monitors and metamorphic isomorphism checks')

prop('C21', 'Compiled, mapped, looped and differentiated code computes the same',
	'Under the compiling and differentiating backends a function of multivectors gives the same values compiled as run directly, also when one compiled function serves several subspaces, algebras and contexts; mapping it over an axis and looping it agree with doing it one entry at a time. '
	'Multivectors and operators passing through such transformations keep their subspace and context, and gradients equal the derivatives of the values, also at the identity and at zero where exponential and logarithm are documented to be smooth.',
	['inputs', 'configurations', 'histories'], 'random programs, subspaces, algebras, batch axes and call orders; forward and reverse derivatives',
	'Tests jit one function of one multivector; a wrong static key, a lost branch or a gradient that is not a number at a special point shows only for other sequences of arguments.',
	['numga/backend/jax/pytree.py', 'numga/backend/jax/multivector.py', 'numga/backend/jax/operator.py', 'numga/backend/jax/context.py', 'numga/backend/torch/multivector.py', 'numga/backend/torch/operator.py', 'numga/multivector/extension/logexp.py'],
	[('flattening into arrays and static structure', 'numga/backend/jax/pytree.py'), ('backend kernels', 'numga/backend/jax/operator.py, numga/backend/torch/operator.py')], ['values and derivatives of transformed functions'],
	'direct numpy evaluation and central differences; condition-aware tolerances', 'differential runtime oracle: transformed against direct execution, derivatives against central differences')

prop('C22', 'Simulated rigid bodies obey mechanics in every algebra',
	'Free and forced bodies in any geometry with at most one null generator, and bodies under constraints in flat and spherical ones, keep normalized motions, follow the independent equations of motion to the order of the integrator, and conserve momentum and energy as far as the method promises. '
	'Inertia is symmetric, additive and inverted exactly, and a simulation does not depend on the batch a body is in, the backend, or the frame it is described in.',
	['inputs', 'configurations', 'histories'], 'signatures up to five generators, point clouds, batches, backends, frames, long trajectories',
	'Tests run one scene per geometry and look at a picture; a conserved quantity that drifts or a frame dependence is not asserted.',
	['numga/examples/physics/core.py', 'numga/examples/physics/base.py', 'numga/examples/integrators.py', 'numga/operator/operator.py', 'numga/multivector/multivector.py'],
	[('inertia maps, constraints and updates', 'numga/examples/physics/core.py'), ('integration of motions', 'numga/examples/integrators.py')], ['states along recorded trajectories'],
	'independent ODE solution in the reference model', 'invariants monitored along trajectories, reference ODE and metamorphic frame changes')

prop('C23', 'Geometry computed with multivectors is the geometry it models',
	'Points, planes, distances, volumes, joins, meets, projections, reflections, rotations, translations, boosts and spheres computed in an algebra agree with plain linear algebra on coordinates, in every dimension and for every naming and order of the generators. '
	'Algebras that are the complex, split or dual numbers, quaternions or matrices compute what those number systems compute, including inverses, roots, logarithms and exponentials.',
	['inputs', 'configurations'], 'random configurations of up to five dimensions with the null or negative generator at any position; batch shapes; strategies',
	'Tests check internal consistency of a few expressions and have no second source of truth for the geometry itself.',
	['numga/algebra/algebra.py', 'numga/operator/factory.py', 'numga/multivector/multivector.py', 'numga/multivector/extension/logexp.py', 'numga/multivector/extension/norms.py', 'numga/multivector/extension/roots.py', 'numga/multivector/extension/inverse.py', 'numga/examples/conformal.py'],
	[('products, duals and actions', 'numga/operator/factory.py'), ('inverse, norm, root, exponential, logarithm', 'numga/multivector/extension'), ('conformal model', 'numga/examples/conformal.py')], ['results of geometric constructions in coordinates'],
	'coordinate geometry by numpy and scipy; independent of the reference model', 'runtime oracle: linear algebra on coordinates and faithful matrix representations')

prop('C24', 'Concurrent first use gives the results of sequential use',
	'Threads that share algebras, contexts and operators, also when all of them use an operation for the first time at the same moment, each get what the same calls give when made alone. Equal subspaces requested by different threads are one and the same object.',
	['schedules', 'histories'], 'random call programs on up to eight threads, with random delays at entry and exit of library functions; shared and separate contexts; algebras with equal names',
	'Tests are single threaded; lazily filled caches and shared tables only go wrong at particular interleavings.',
	['numga/flyweight.py', 'numga/algebra/algebra.py', 'numga/dynamic_dispatch.py', 'numga/context.py', 'numga/operator/factory.py', 'numga/subspace/factory.py', 'numga/util.py'],
	[('shared subspaces', 'numga/flyweight.py'), ('lazily built operators and dispatch caches', 'numga/operator/factory.py, numga/dynamic_dispatch.py, numga/context.py')], ['outcomes of calls per thread and object identities'],
	'registration of new implementations while other threads call is outside the claim; schedules are sampled', 'stress with injected delays; per-thread outcomes compared with isolated serial runs',
	state=[('object and kernel caches', 'subspaces, operators and resolved specialisations shared by threads', 'numga/flyweight.py, numga/util.py')])

prop('C25', 'Sparse tables and sparse matrices compute what dense ones compute',
	'Sums, multiples, transposes, products and contractions of sparse tables, and sums, products, adjoints and duals of sparse matrices of multivectors, equal the same computation on dense arrays, with repeated entries added up. '
	'Products of a matrix with a vector, a multivector or another matrix, under any bilinear product, agree with its dense form and its linear operator; matrices under construction are independent of each other.',
	['inputs', 'configurations', 'histories'], 'random sparsity patterns with nonempty rows, random axes, subspaces, products and signatures; several builders alive at once',
	'Tests build one matrix and print it, and add and contract one table of one axis.',
	['numga/operator/sparse_tensor.py', 'numga/examples/ga_sparse.py', 'numga/backend/numpy/operator.py', 'numga/operator/factory.py'],
	[('coordinate tables', 'numga/operator/sparse_tensor.py'), ('sparse matrices', 'numga/examples/ga_sparse.py')], ['entries of results, dense forms and operators'],
	'integer operands, so agreement is exact; ' + MODEL, 'differential runtime oracle against dense arrays of reference elements',
	state=[('entries under construction', 'coordinate lists of each builder', 'numga/examples/ga_sparse.py')])

prop('C26', 'Results have the number type of their context, at its full precision',
	'Every operation on multivectors of a context gives multivectors of that context, whose coefficients have the number type the context was created with, whatever other number types the scalars and arrays that take part have, and on whichever side of an operator they stand. '
	'Sums, products, involutions, selections and operators bound to multivectors are computed at the full precision of that type, be it real, complex, integer or rational: they are exact wherever the type can represent the values involved.',
	['inputs', 'configurations'], 'number types and execution strategies; coefficients that use all digits of the type; scalars and arrays of foreign number types',
	'Tests use double precision and small or random real coefficients that do not fill it.',
	['numga/context.py', 'numga/backend/numpy/context.py', 'numga/backend/numpy/multivector.py', 'numga/backend/numpy/operator.py', 'numga/backend/torch/context.py', 'numga/backend/torch/operator.py', 'numga/backend/jax/context.py', 'numga/backend/jax/operator.py', 'numga/multivector/multivector.py', 'numga/multivector/factory.py'],
	[('coercion of coefficients', 'numga/backend/numpy/context.py'), ('scalars', 'numga/multivector/multivector.py'), ('operator coefficients', 'numga/backend/numpy/operator.py')], ['number type, context and exact values of results'],
	'non-multilinear operations are judged on real number types only, and only for the type of their result; ' + MODEL, 'runtime oracle in exact Gaussian rational arithmetic, with a monitor of result types')

exec(open(os.path.join(ROOT, 'tools', 'properties_ext.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'properties_ext.py')) else None


def main():
	with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
		for p in P:
			assert len(p['title']) <= 80, p['title']
			f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
	checks = []
	for p in P:
		assert os.path.exists(os.path.join(ROOT, 'vf', 'checks', p['id'].lower() + '.py')), p['id']
		checks.append(dict(property=p['id'], quick_cmd=f'bash run.sh {p["id"]} --tier quick', thorough_cmd=f'bash run.sh {p["id"]} --tier thorough',
			evidence_file=f'evidence/{p["id"]}.json', technique='runtime monitoring: ' + p['_technique'], level='exploration',
			level_note='Monitored executions, no exhaustiveness claim beyond what the evidence counts; ' + p['_note'] + '.'))
	man = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
		notes='No hooks in /repo: all monitors attach at the public API from /verif (contexts, operands and factories are wrapped there). Checks import the sources of /repo directly; nothing is compiled.')
	with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
		json.dump(man, f, indent=1)
		f.write('\n')


main()
