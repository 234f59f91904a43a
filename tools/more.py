prop('C11', 'Discretising a function gives its values at the mapped nodes',
     'Discretising an expression on a quadrature compiles it and returns its value at mean + F node for every node of the tensor grid, in row-major order with the last direction fastest, where F F^T is the covariance. It is so for every expression sympy can write as C, any direction set, variable names, mean, covariance, and different numbers of nodes per direction. Different expressions are never confused with one another.',
     ['inputs'], 'expressions (polynomials, roots, logarithms, powers, absolute values, nested calls, long constants), direction sets, means, full covariances, numbers of nodes',
     'The tests discretise a few polynomials on standard grids.',
     ['cpp/src/hermite/discretize.cpp', 'hermipy/core.py', 'hermipy/function.py', 'hermipy/quad.py'],
     [('C code generated from the expression, compiled to a shared object and called at every node', 'cpp/src/hermite/discretize.cpp, hermipy/function.py')],
     ['Quad.discretize', 'Quad.mapped_nodes', 'core.discretize'],
     'Hypothesis, differential against numpy, with the real compiler',
     'expressions evaluated by numpy at independently mapped nodes')

prop('C12', 'Compiling a function survives faults and concurrent processes',
     'When the compiler fails, is killed or is missing, or the process is killed while it compiles, the call in question raises (or dies) and every later call, in this process or another, still returns the right values. Processes that need the same function at the same time all get right values: nobody loads an unfinished object.',
     ['crash_points', 'fault_sequences', 'schedules'], 'faults of the compiler before, during and after its output, kills of the caller, several processes per function',
     'No test makes the compiler fail or runs two processes.',
     ['cpp/src/hermite/discretize.cpp'],
     [('source and object get unique names and the object is renamed when complete', 'cpp/src/hermite/discretize.cpp')],
     ['core.discretize after the fault'],
     'fault injection with a stand-in compiler, faults and schedules generated by Hypothesis',
     'the stand-in compiler fails at a generated stage; races are forced by delays')

prop('C13', 'Symbolic functions keep their values under every operation',
     'Sums, products and quotients of functions, renaming of variables (x, y, z or x0, x1, x2), splitting into separable terms, projection onto directions, tensor products, sanitizing of floats and generation of C code keep the values of the function: the result evaluated at any point equals the operation on the values. The parts of a split multiply and add up to the function again, and each depends only on the directions it is listed under. A function that does depend on other directions is refused.',
     ['inputs'], 'expressions in up to five variables, trees of operations, direction sets',
     'The tests split and project a few expressions.',
     ['hermipy/function.py'],
     [('expressions in x0..x4; split by expand and grouping of factors by their symbols', 'hermipy/function.py')],
     ['Function.__add__, __mul__, __truediv__', 'Function.split', 'Function.project', 'Function.tensorize', 'Function.ccode', 'Function.as_xyz'],
     'Hypothesis, values at random points against numpy',
     'operation trees evaluated by numpy at random points')

prop('C14', 'Symbolic operators act as the operators they denote',
     'A symbolic differential operator applied to a function gives that function\'s image; sums, differences, negations and multiples of operators act accordingly; mapping by a factor gives the conjugated operator L(factor u)/factor; and splitting lists for each multi-index of derivatives its coefficient, so that the terms add up to the operator again.',
     ['inputs'], 'linear operators with variable coefficients and derivatives of total order up to 5 in up to four variables, factors, functions',
     'The tests split and map a few operators.',
     ['hermipy/operator.py', 'hermipy/function.py'],
     [('substitution of the unknown function and collection of its derivatives', 'hermipy/operator.py')],
     ['Operator.__call__', 'Operator.__add__, __sub__, __mul__, __neg__', 'Operator.map', 'Operator.split'],
     'Hypothesis, derivatives taken directly at random points',
     'coefficients, orders and functions generated; oracle differentiates with sympy and evaluates numerically')

prop('C15', 'Conversions between numpy, scipy and C++ are lossless or refused',
     'Vectors, matrices, cubes and sparse matrices passed to the C++ side and back are equal to the input entry for entry (infinities, denormals and signed zeros included), whatever their memory layout, byte order or sparse form, and the input is not altered. What cannot be represented raises an exception.',
     ['inputs'], 'every dtype, layout (transposed, strided, reversed, sliced, read-only, byte-swapped), shape and sparse form (unsorted, repeated, explicit zeros)',
     'The tests convert a few contiguous arrays.',
     ['cpp/src/hermite/python/converters.cpp', 'hermipy/core.py'],
     [('copies between numpy buffers and C++ containers', 'cpp/src/hermite/python/converters.cpp'), ('conversion of scipy matrices', 'hermipy/core.py')],
     ['core.to_cpp', 'core.to_numpy', 'hermite_cpp conversions'],
     'Hypothesis round trips',
     'round trip equality bit for bit over generated layouts')

prop('C16', 'Linear systems and eigenvalue problems are solved',
     'Solving with a variational matrix returns a series whose image under the matrix is the right-hand side (direct or iterative, dense or sparse, preconditioned or not, cache on or off); with a removed kernel the solution solves the equation up to a multiple of the removed vector and is orthogonal to it. Eigenvalue calls return eigenvalues of the matrix with matching eigenvectors as series. The matrix and right-hand side are unchanged, and objects of different spaces are refused.',
     ['inputs', 'configurations'], 'matrices of moderate condition number, right-hand sides, index sets, positions, solver options',
     'The tests solve a few systems from discretised operators.',
     ['hermipy/varf.py'],
     [('scipy and numpy solvers behind the cache; bordered systems for removed vectors', 'hermipy/varf.py')],
     ['Varf.solve', 'Varf.eigs'],
     'Hypothesis, residual oracle',
     'residuals computed with numpy from the generated matrices')

prop('C17', 'Invalid arguments raise an exception and change nothing',
     'A call with inconsistent arguments (sizes that do not match, unknown index sets, directions out of range or repeated, mismatched positions, factors, degrees or index sets, odd Fourier degrees, functions that do not compile or that do not belong to the directions) raises a Python exception: it neither returns a result, nor ends the process, nor makes later valid calls wrong.',
     ['inputs', 'histories'], 'ways to make each public call invalid, over dimensions, degrees, index sets',
     'The tests call the library with valid arguments, but for two.',
     ['hermipy/core.py', 'hermipy/series.py', 'hermipy/varf.py', 'hermipy/quad.py', 'hermipy/position.py', 'hermipy/function.py', 'hermipy/compquad.py', 'cpp/src/hermite'],
     [('checks at the entry of each function', 'hermipy/*.py, cpp/src/hermite/*.cpp')],
     ['every public call'],
     'Hypothesis over a table of invalidating mutations',
     'each mutation of a valid call must raise, followed by a valid call')

prop('C18', 'No call reads or writes outside its arrays',
     'Whatever the sizes, degrees, directions and index sets of its arguments, no call of the library reads or writes outside its arrays, uses uninitialised or freed memory, or overflows an integer: it returns or raises.',
     ['inputs'], 'calls of every function of hermipy.core with valid, near-valid and arbitrary arguments',
     'The tests run without sanitizers and with valid arguments.',
     ['cpp/src/hermite'],
     [('loops over iterators and grids', 'cpp/src/hermite/*.cpp')],
     ['hermipy.core under AddressSanitizer, UBSan and checked containers'],
     'Hypothesis-generated calls on an instrumented build',
     'ASAN + UBSAN + _GLIBCXX_ASSERTIONS build of the current tree')

prop('C19', 'The equations are the equations of the stochastic processes they name',
     'The forward and backward operators, fluxes and maps in hermipy.equations are those of the stochastic differential equation for every choice of parameters, potentials and noise models; Gibbs densities are invariant where the process has one; solve_gaussian returns the normalised Gaussian solution; the effective noise coefficients are those of the closed form.',
     ['inputs'], 'parameters, potentials, noise models, test functions',
     'The tests use a handful of parameter values and compare with stored expressions.',
     ['hermipy/equations.py'],
     [('symbolic assembly of generators from parameters', 'hermipy/equations.py')],
     ['the classes and functions of hermipy.equations'],
     'Hypothesis, drift/diffusion oracle at random points',
     'generators written out from the SDE; values at random points')

prop('C20', 'Series and matrices form the vector spaces they stand for',
     'Sums, differences, negations, multiples and quotients of series and matrices, applications of matrices to series, inner products, item access and equality agree with those of the plain arrays, dense or sparse. Results carry the position, factor, index set and degree of the operands; operands of different spaces (mean, covariance, directions, types, factor, degree, index set) are refused; no operand changes. A series turned into a function has the values of the series.',
     ['inputs', 'histories'], 'histories of operations on pools of series and matrices of spaces that differ in one respect',
     'The tests add and compare a few objects of one space.',
     ['hermipy/series.py', 'hermipy/varf.py'],
     [('operators that check the spaces and work on the arrays', 'hermipy/series.py, hermipy/varf.py')],
     ['arithmetic of Series and Varf', 'Series.to_function'],
     'Hypothesis histories against an array model',
     'model of plain arrays run beside the library')

prop('C21', 'Positions and quadratures are the geometry they describe',
     'The factor of a position is a square root of its covariance; its weight is the Gaussian density of the Hermite directions; projection keeps exactly the data of the given directions; products join the directions that occur once, drop those that occur twice and refuse contradictory ones. Every constructor of a quadrature gives the nodes, weights, position and types of its rule, mapped nodes are mean + F node, products and projections of quadratures are those of their rules, and equality tells every parameter.',
     ['inputs'], 'dimensions, means, covariances, types, direction sets, numbers of nodes, constructors',
     'The tests compare a few diagonal positions.',
     ['hermipy/position.py', 'hermipy/quad.py', 'hermipy/lib.py'],
     [('eigendecomposition or square root of the covariance', 'hermipy/position.py'), ('rules per direction', 'hermipy/quad.py, hermipy/lib.py')],
     ['Position', 'Quad.gauss_hermite', 'Quad.fourier', 'Quad.newton_cotes', 'Quad.project', 'Quad products and equality'],
     'Hypothesis, closed-form oracle',
     'densities, rules and joins written out independently')

prop('C22', 'Composite quadratures are the weighted sums of their parts',
     'Integrals, transforms, variational matrices and discretised operators of a composite quadrature are the sums of those of its parts times their weights, whatever the number, order and sizes of the parts and the signs of the weights. Its projections are the composites of the projections, equality tells parts and weights, and the parts are not changed.',
     ['inputs'], 'lists of quadratures of one position, weights, functions, index sets, degrees, options',
     'No test covers composite quadratures beyond one weighted sum.',
     ['hermipy/compquad.py', 'hermipy/quad.py'],
     [('accumulation over the parts', 'hermipy/compquad.py')],
     ['CompQuad'],
     'Hypothesis, weighted node sums and linearity',
     'node sums for integrals and transforms; sums over parts for matrices')

prop('C23', 'Results depend on the arguments only, which are left as they were',
     'No call of the public interface changes its arguments, other objects or the settings, and its result does not depend on what was called before: any history of calls, repeated in another order on objects made anew or under other settings, gives the same results.',
     ['histories', 'configurations'], 'histories of up to 14 calls on a growing pool, under changing settings',
     'The tests run one short computation at a time on fresh objects.',
     ['hermipy', 'cpp/src/hermite'],
     [('objects share positions, factors and arrays; compiled functions and cached results are kept on disk', 'hermipy/*.py, cpp/src/hermite/discretize.cpp')],
     ['every public call'],
     'Hypothesis stateful histories; snapshots and re-execution',
     'snapshots of all objects after each call; the history re-run in another order')

prop('C24', 'Plots show the values at the nodes',
     'The plots of functions, arrays and series over a quadrature put the values of the object (times the factor) at the mapped nodes, with x and y the right way round; the basis functions, stream functions and bounds drawn are those of the definition; plots of series and matrices show their coefficients at their multi-indices or entries; nothing plotted is changed.',
     ['inputs'], 'functions, arrays, real and complex series, factors, quadratures of dimension 1 and 2, matrices dense and sparse',
     'No test looks at what is plotted.',
     ['hermipy/quad.py', 'hermipy/series.py', 'hermipy/varf.py'],
     [('reshape of the grid values and calls of matplotlib', 'hermipy/quad.py')],
     ['Quad.plot', 'Quad.plot_hf', 'Quad.streamlines', 'Series.plot', 'Varf.plot'],
     'Hypothesis, recording axes against independent values',
     'axes that record the data they are given')
