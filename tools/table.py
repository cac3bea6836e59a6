S='schedules'; I='inputs'; H='histories'; FS='fault_sequences'; CF='configurations'
prop('C01','Parallel and sequential evolution of continuous systems give the same sets',
 'For every vector field, initial set, time horizon, semantics and integrator, the reach, intermediate and final sets computed with any number of worker threads are exactly the sets that a single thread computes, the same number of times, though possibly in another order. No two threads ever access the same memory without synchronisation while doing so, and every evolution ends.',
 [S,I,CF],'every interleaving of the worker threads, every number of threads, every evolution problem',
 'The tests run one schedule, the one the machine happens to produce, and the evolver is not even part of the tests that run reliably here.',
 ['source/dynamics/vector_field_evolver.cpp','source/solvers/integrator.cpp','source/dynamics/enclosure.cpp','source/dynamics/orbit.cpp'],
 [('work lists shared by the workers','VectorFieldEvolver::orbit, SynchronisedOrbit'),('lazy values in shared enclosures and functions','Enclosure, TaylorModel, Real')],['VectorFieldEvolver::orbit'])
prop('C06','Numbers and algebraic objects may be shared by threads',
 'Any read-only operation (arithmetic, comparison, conversion, evaluation, writing) may be called by any number of threads at the same time on the same integers, dyadics, rationals, decimals, reals, floating-point numbers, bounds, vectors, matrices, expansions, differentials and polynomials. Each call returns exactly what it returns when called alone, with no unsynchronised access to common memory and no change to its operands.',
 [S,I],'every interleaving of any calls on shared operands, including the first calls, which fill caches',
 'No test calls anything from two threads on a common object; lazily computed values and reference counts only go wrong under particular interleavings.',
 ['source/numeric/real.cpp','source/numeric/number.cpp','source/numeric/floatmp.cpp','source/algebra/expansion.hpp','source/algebra/differential.hpp','source/utility/handle.hpp','source/utility/writable.hpp'],
 [('reference-counted handles','utility/handle.hpp, utility/pointer.hpp'),('cached values of reals and series','numeric/real.cpp, algebra/series.hpp'),('process-wide settings','numeric/floatmp.cpp, numeric/float_bounds.hpp')],['return values of the public operations'])
prop('C07','Functions, expressions and function models may be shared by threads',
 'Any read-only operation (evaluation, differentiation, composition, arithmetic, substitution, comparison, writing) may be called by any number of threads at the same time on the same expressions, valuations, spaces, functions, Taylor models and Taylor functions. Each call returns exactly what it returns when called alone, with no unsynchronised access to common memory and no change to its operands.',
 [S,I],'every interleaving of any calls on shared operands, including the first calls, which fill caches',
 'No test calls a function from two threads; the evolvers do so in every parallel run.',
 ['source/function/function.cpp','source/function/taylor_model.tpl.hpp','source/function/taylor_function.cpp','source/function/formula.hpp','source/symbolic/expression.cpp','source/symbolic/identifier.hpp'],
 [('reference-counted handles','utility/handle.hpp'),('shared sweepers and mutable members of models','function/taylor_model.hpp, algebra/sweeper.hpp')],['return values of the public operations'])
prop('C08','Sets and pavings may be shared by threads',
 'Any read-only operation (inclusion and intersection tests, bounding boxes, splitting, approximation on a grid, iteration over cells, writing) may be called by any number of threads at the same time on the same intervals, boxes, grids, pavings, constraint sets, image sets and curves. Each call returns exactly what it returns when called alone, with no unsynchronised access to common memory and no change to its operands.',
 [S,I],'every interleaving of any calls on shared operands, including the first calls, which fill caches',
 'No test calls an operation on sets from two threads; the evolvers and the reachability analyser do so in every parallel run.',
 ['source/geometry/function_set.cpp','source/geometry/grid_paving.cpp','source/geometry/grid_cell.cpp','source/geometry/box.cpp','source/geometry/affine_set.cpp'],
 [('results kept in const sets','geometry/function_set.cpp'),('trees shared by subpavings','geometry/grid_paving.cpp')],['return values of the public operations'])
prop('A01','A failed allocation in numeric or algebraic code is reported and harmless',
 'If any memory allocation fails during an operation on numbers, strings of digits, arrays, vectors, matrices, expansions, differentials or polynomials, the operation either throws or still returns its correct result; it never returns a wrong result or ends the process. All operands keep their values, memory obtained by the failed operation is released, nothing is released twice, and the same call succeeds with the same result once memory is available again.',
 [FS,I],'every operation, every operand, every allocation of the operation failing once or persistently',
 'No test makes an allocation fail.',
 ['source/utility/array.hpp','source/numeric/integer.cpp','source/numeric/floatmp.cpp','source/algebra/multi_index.hpp','source/algebra/expansion.inl.hpp','source/algebra/vector.hpp'],
 [('manual construction and destruction of elements','utility/array.hpp, algebra/multi_index.hpp'),('buffers of GMP and MPFR','numeric/integer.cpp, numeric/floatmp.cpp')],['return values and exceptions; live heap blocks'])
prop('A02','A failed allocation in functions, expressions or models is reported and harmless',
 'If any memory allocation fails during an operation on expressions, functions, Taylor models or function patches, the operation either throws or still returns its correct result; it never returns a wrong result or ends the process. All operands keep their values, memory obtained by the failed operation is released, nothing is released twice, and the same call succeeds with the same result once memory is available again.',
 [FS,I],'every operation, every operand, every allocation of the operation failing once or persistently',
 'No test makes an allocation fail.',
 ['source/utility/pointer.hpp','source/function/function.cpp','source/function/taylor_model.tpl.hpp','source/function/function_patch.hpp','source/symbolic/expression.cpp'],
 [('cloning handles','utility/pointer.hpp'),('in-place updates of models','function/taylor_model.tpl.hpp')],['return values and exceptions; live heap blocks'])
prop('A03','A change of an object that fails half-way leaves a usable object',
 'Numbers, arrays, matrices, expansions, polynomials, Taylor models, functions and expressions may be changed in place by any history of operations, any of which may fail for lack of memory at any point. After a failure the changed object can still be assigned, copied, read, changed further and destroyed; assigning it restores it completely, objects it shares representation with are untouched, and at the end of the history no memory is lost. Without failures, or after an assignment, the history gives exactly the object which it gives when memory is plentiful.',
 [H,FS,I],'every history of in-place changes, every allocation within it failing',
 'No test makes an allocation fail, and few tests change an object more than once.',
 ['source/utility/array.hpp','source/utility/lru_cache.hpp','source/algebra/multi_index.hpp','source/algebra/expansion.inl.hpp','source/function/taylor_model.tpl.hpp','source/symbolic/assignment.hpp'],
 [('capacity and size of growing storage','algebra/multi_index.hpp, algebra/expansion.inl.hpp'),('updates in several steps','function/taylor_model.tpl.hpp, function/taylor_function.cpp, utility/lru_cache.hpp')],['digests of the object after each step; live heap blocks'])
prop('A04','A failed allocation in operations on sets and pavings is reported and harmless',
 'If any memory allocation fails during an operation on intervals, boxes, grids, pavings, constraint sets, image sets or curves, the operation either throws or still returns its correct result; it never returns a wrong result or ends the process. Operands which are not changed keep their values, a set being changed can still be assigned, read, changed and destroyed, memory obtained by the failed operation is released and nothing is released twice.',
 [FS,H,I],'every operation or history of operations, every allocation within it failing',
 'No test makes an allocation fail.',
 ['source/geometry/binary_tree.hpp','source/geometry/binary_tree.cpp','source/geometry/grid_paving.cpp','source/geometry/function_set.cpp','source/geometry/list_set.hpp'],
 [('trees of nodes owned by plain pointers','geometry/binary_tree.hpp, geometry/grid_paving.cpp')],['return values and exceptions; live heap blocks'])
prop('R01','Operations leave the caller\'s rounding settings as they found them',
 'Whatever rounding mode of built-in arithmetic, and whatever default rounding mode and default precision of multiple-precision arithmetic a thread has set, they are the same after any library operation as before it. This holds whether the operation returns, throws because of its arguments, or throws because memory ran out at any point within it.',
 [FS,I,CF],'every operation, every ambient setting, every exit including those caused by an injected fault',
 'The tests start every operation in the default mode, never look at the mode afterwards, and never make an operation fail half-way.',
 ['source/numeric/rounding.hpp','source/numeric/floatdp.hpp','source/numeric/floatmp.cpp','source/function/taylor_model.tpl.hpp','source/function/affine_model.tpl.hpp','source/algebra/matrix.tpl.hpp'],
 [('switching of the mode around directed operations','numeric/floatdp.hpp, numeric/float_bounds.tpl.hpp'),('error-accumulating loops in upward mode','function/taylor_model.tpl.hpp, function/model_utilities.hpp')],['MXCSR, the C floating-point environment and the MPFR defaults of the calling thread'])
prop('R02','Rigorous results do not depend on the ambient rounding settings',
 'Every operation that gives exact or guaranteed results (exact numbers, bounds, balls, error bounds, validated vectors, functions, models and sets) returns exactly the same result whatever rounding mode of built-in arithmetic and whatever default rounding mode and precision of multiple-precision arithmetic are set in the calling thread. This also holds for operands constructed under those settings.',
 [FS,I,CF],'every rigorous operation, every ambient setting injected before construction or between construction and use',
 'The tests never change the ambient settings.',
 ['source/numeric/floatdp.cpp','source/numeric/float_bounds.tpl.hpp','source/numeric/float_ball.tpl.hpp','source/function/taylor_model.tpl.hpp'],
 [('explicitly directed operations','numeric/floatdp.hpp, numeric/floatmp.cpp')],['exact digests of results'])
prop('H01','Results depend only on the arguments, never on history or memory contents',
 'Every operation, called again with equal operands, returns exactly the same result whatever operations were called before, in whatever order, on the same or on other objects, including operations that threw. The result also does not depend on the contents of fresh memory, on the addresses of objects, or on how memory is reused.',
 [H,FS,I],'every history of operations and failures before a call, every heap layout and content',
 'The tests run each operation once, in one order, in one heap.',
 ['source/numeric','source/algebra','source/function','source/symbolic','source/geometry'],
 [('caches and lazily computed members','numeric/real.cpp, algebra/series.hpp'),('uninitialised storage','utility/array.hpp, numeric/floatmp.cpp')],['exact digests of results'])
prop('H02','Operations release all memory they obtain and never touch memory they do not own',
 'After an operation and the destruction of its operands and results, everything it allocated has been released, exactly once and by the matching function, whether it returned or threw. No operation reads or writes outside the objects it owns or after their release.',
 [H,FS,I],'every operation, every operand, with and without injected failures',
 'The tests never look at the heap.',
 ['source/utility/array.hpp','source/utility/pointer.hpp','source/numeric','source/algebra','source/function'],
 [('owning pointers and handles','utility/handle.hpp, utility/pointer.hpp, utility/array.hpp')],['live heap blocks, red zones and quarantined blocks'])
prop('H03','A paving covers exactly the cells its history of changes says',
 'Starting from any paving, any history of adjoining, restricting, removing, joining, intersecting, subtracting, approximating, mincing, recombining, copying, cloning, assigning and clearing, with allocations failing in between, leaves a paving which covers exactly the cells given by the same history of elementary set operations; mincing, recombining, copying and changing the root do not change the set covered. Inclusion, intersection and measure always agree with the cells covered, and approximations of a box cover it.',
 [H,FS,I],'every history of changes, every position of the failures in it',
 'The tests check single operations on a few small pavings.',
 ['source/geometry/grid_paving.cpp','source/geometry/binary_tree.cpp','source/geometry/grid_cell.cpp'],
 [('sharing of nodes and invariants of leaves','geometry/binary_tree.cpp'),('alignment of pavings with different roots','geometry/grid_paving.cpp')],['the cells enumerated by iteration, the size and the measure'])
NAP='A property of a pure function of its arguments: no schedule, fault, clock, I/O or history takes part, so deterministic simulation has nothing to vary and would only be input sampling.'
prop('N01','Validated arithmetic encloses the exact result',
 'The bounds returned by any validated arithmetic operation or elementary function contain every exact result for arguments within the given bounds.',[I],'every operand and precision','The tests sample a few operands.',
 ['source/numeric/float_bounds.tpl.hpp','source/numeric/float_ball.tpl.hpp'],[('directed rounding','numeric/floatdp.hpp')],na=NAP)
prop('N02','Validated function models enclose the function they model',
 'A validated model computed for a function over a domain encloses the value of the function at every point of the domain, also after arithmetic, composition, differentiation, restriction and sweeping.',[I],'every function, domain and sweeper','The tests sample a few functions.',
 ['source/function/taylor_model.tpl.hpp'],[('uniform error bounds','function/taylor_model.tpl.hpp')],na=NAP)
prop('N03','Reachable sets computed with upper semantics contain every trajectory',
 'The reach and final sets computed with upper semantics contain every point that a trajectory starting in the initial set can reach.',[I],'every system, initial set and horizon','The tests sample a few systems.',
 ['source/dynamics/vector_field_evolver.cpp','source/hybrid/hybrid_evolver.cpp'],[('validated integration','solvers/integrator.cpp')],na=NAP)
prop('N04','Solvers return validated solutions only',
 'A solution box or feasibility verdict returned by a solver is correct: the box contains a solution, and a set reported empty is empty.',[I],'every problem','The tests sample a few problems.',
 ['source/solvers/solver.cpp','source/solvers/nonlinear_programming.cpp','source/solvers/constraint_solver.cpp'],[('interval Newton and Hansen-Sengupta steps','solvers/solver.cpp')],na=NAP)
