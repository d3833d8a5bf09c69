def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, state=None, observe=None, na=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    if technique:
        d['_technique'], d['_note'] = technique, note
    if na:
        d['_na'] = na
    PROPS.append(d)


PROPS = []
API = 'interfaces/conex.cc'
STATIC = 'Static: decided from the current source by dataflow over all paths, nothing is executed. '
TRUST = 'Trusts the clang front end and the effect models of STL/Eigen calls (sa/lib.py); undecided obligations are listed in the evidence and never reported.'

P('C01', 'Solver options reach the solver unchanged, with documented defaults',
  'The default-options call fills in every solver option, with the value the solver itself uses as its default. Every option a caller passes to a solve call reaches the solver unchanged under the same name. No public option is silently ignored.',
  ['inputs', 'configurations'], 'all values of all options, both public solve calls',
  'Tests set three or four of the 19 options to one value each; an option that is dropped, crossed with a neighbour or left uninitialised changes nothing in them.',
  ['interfaces/conex.h', API, 'conex/cone_program.h'],
  [('field-by-field conversion', 'APIConvertSolverConfiguration'), ('CONEX_SetDefaultOptions', API)],
  'interprocedural value-numbering dataflow from the API entry points to the solver call',
  STATIC + 'Complete over option values: each field of the record that reaches the core solve call is shown to carry the value number of the same-named caller field. ' + TRUST,
  observe=['CONEX_SetDefaultOptions', 'CONEX_Solve', 'CONEX_Maximize'])

P('C02', 'Coefficient updates are checked, addressed and all-or-nothing',
  'Updating one coefficient of a constraint (linear operator, affine term, quadratic cost matrix) either returns an error and leaves the constraint unchanged, or returns success and stores exactly the given value at the entry the arguments name: the named variable, row, column and hypercomplex component, together with the conjugate entry for matrix cones (a nonzero imaginary diagonal entry is refused). All other coefficients keep their values. Indices that are negative or beyond the size of the constraint are refused before anything is accessed. The public update calls pass their arguments, in order, to the constraint with the given id and return its status.',
  ['inputs'], 'all index and value arguments, every cone kind, any earlier sequence of updates',
  'Tests update a few in-range entries of small constraints and look at the optimum; out-of-range indices, first updates to new variables, mirrored components and rejected updates are samples of an unbounded argument space.',
  ['conex/linear_constraint.cc', 'conex/soc_constraint.cc', 'conex/hermitian_psd.h', 'conex/quadratic_cost.cc', 'conex/constraint.h', 'conex/constraint_manager.h', API],
  [('bounds guards and stores', 'UpdateLinearOperator / UpdateAffineTerm overloads'), ('type-erased forwarding', 'Constraint::Model::do_update_*'), ('public update calls', API)],
  'interprocedural dataflow with symbolic bounds facts over every Update overload and the forwarding chain',
  STATIC + 'Complete over argument values and over the states that the size facts of the constraint describe; a previously grown container is covered by its size relations, not by enumerating histories. ' + TRUST,
  observe=['CONEX_UpdateLinearOperator', 'CONEX_UpdateAffineTerm', 'CONEX_UpdateQuadraticCostMatrix'])

P('C03', 'Null pointers are refused and valid handles are never refused',
  'Every public C call that is given a null program handle, null input array or null output pointer returns its failure value (a zero for solve and size queries, a negative id, a nonzero status), reads and writes nothing through that pointer and leaves the program unmodified. Conversely a handle the library itself returned is never refused as corrupted by the calls that add or update constraints, whatever sequence of adding constraints and solving came before.',
  ['inputs', 'histories'], 'every pointer argument of every public call; every order of creating, sizing, adding, solving and adding again',
  'Tests pass valid pointers almost everywhere and follow one order of calls (create, add, solve); null arguments and add-after-solve histories are not sampled.',
  [API, 'conex/cone_program.h', 'conex/error_checking_macros.h'],
  [('null and corruption checks', 'CONEX_DEMAND / SAFER_CAST_TO_Program at the head of each entry point'), ('state the corruption check looks at', 'Program::is_initialized, Program::workspaces, Program::InitializeWorkspace')],
  'null-pointer typestate dataflow over every public entry point, plus composition of abstract post-states for the handle check',
  STATIC + 'Complete over pointer arguments: every path of every entry point under the assumption that the argument is null. Histories are covered by symbolic post-states of create, set-variables, add and solve (workspace layout) with symbolic constraint counts. ' + TRUST,
  observe=['every CONEX_* function'])

P('C04', 'Caller buffers are used exactly within their declared sizes',
  'Arrays passed to the C API are read and written only within the extents declared by the accompanying size arguments. A constraint or cost whose dimension arguments disagree (matrix not square where it must be, row count different from the bound vector, as many variable ids as matrices) is refused before anything is added. A solve is refused unless the result array holds one value per variable and the objective has one entry per variable, and it writes no more than the number of variables. Copying out a dual variable is refused unless xr*xc is the size the same constraint reports, and for every cone kind exactly that many values are written, from storage of at least that size. A caller index that does not fit an int is refused rather than truncated.',
  ['inputs'], 'all values of the size, dimension and index arguments of the public C calls that take arrays',
  'Tests call with consistent dimensions only, on heap buffers where an overrun of a few elements goes unnoticed.',
  [API, 'conex/cone_program.cc', 'conex/cone_program.h', 'conex/constraint.h', 'conex/workspace.h'],
  [('dimension checks', 'CONEX_AddDenseLMIConstraint, CONEX_AddSparseLMIConstraint, CONEX_AddLinearInequalities, CONEX_AddDenseLinearConstraint, CONEX_AddQuadraticCost, CONEX_Solve, CONEX_Maximize, CONEX_GetDualVariable'), ('dual variable size and copy', 'Constraint::Model::do_get_dual_variable / do_dual_variable_size'), ('result copy', 'conex::Solve')],
  'symbolic extent dataflow: every view, index and copy of a caller buffer against its declared size',
  STATIC + 'Complete over the values of the size arguments: extents are compared as polynomials in them. Products of int arguments are taken as mathematical integers (overflow of the product is not considered). ' + TRUST,
  observe=['CONEX_AddDenseLMIConstraint', 'CONEX_AddSparseLMIConstraint', 'CONEX_AddLinearInequalities', 'CONEX_AddDenseLinearConstraint', 'CONEX_AddQuadraticCost', 'CONEX_Maximize', 'CONEX_Solve', 'CONEX_GetDualVariable'])

P('C05', 'Adding a constraint succeeds completely or has no effect, and its id names it',
  'Every public call (C API and Program methods) that adds a constraint or quadratic cost either reports failure and leaves the problem (its constraints, variable lists, multipliers, costs and number of variables) unchanged with no id written, or reports success after appending exactly one constraint, and the id it hands out is that constraint\'s index, the one later calls use for updates and dual variables. A list of variables is accepted only if every entry is at least zero and below the number of variables and none occurs twice. Setting the number of variables either fails without effect or makes the program have that number of variables.',
  ['inputs', 'histories'], 'all arguments, any program state before the call',
  'Tests add valid constraints in a few orders; rejected additions, ids after a rejection and repeated or out-of-range variables are not sampled, and a wrong id shows only when it is used later.',
  [API, 'conex/cone_program.h', 'conex/cone_program.cc', 'conex/constraint_manager.h'],
  [('append', 'ConstraintManager::AddConstraint / AddEqualityConstraint'), ('status and id', 'CONEX_New* / CONEX_Add*'), ('variable list check', 'IsUnique')],
  'interprocedural path-sensitive dataflow of effects (appends, stores) against returned status and id',
  STATIC + 'Complete over paths of every adding entry point with symbolic program state. Discarding a previous solution (workspaces) on a failed call is not counted as a change of the problem. ' + TRUST,
  observe=['CONEX_New*', 'CONEX_Add*', 'CONEX_SetNumberOfVariables', 'Program::AddConstraint', 'Program::AddQuadraticCost', 'Program::AddLinearCost'])

P('C20', 'Every constraint takes part exactly once, with exactly its own variables',
  'Every pass of the solver over the constraints of a program (cold start, residual assembly, slack eigenvalues and line search used to choose mu, step preparation, taking the step, rank) treats every constraint exactly once. Each constraint is given the entries of the solution vector named by its own variable list, in that order; what it contributes to the residuals is added, not assigned, at exactly those variables; and the totals combine all constraints: squared norm, squared Frobenius norm, trace and inner products as sums, infinity norm, largest eigenvalue and lower step bound as maxima, smallest eigenvalue and upper step bound as minima, each starting from a neutral value. Constraints, variable lists and multiplier lists are appended together: constraint i owns list i, equality constraints get multipliers no other constraint uses, and the KKT solver is bound to the constraints in that order.',
  ['inputs', 'configurations'], 'any number of constraints of any kind, any variable lists, any order of addition',
  'Tests mostly use one or two constraints over all variables, where a crossed list, a skipped constraint or a wrong maximum changes nothing visible; totals that only steer the choice of mu never show in an optimum.',
  ['conex/cone_program.h', 'conex/cone_program.cc', 'conex/constraint_manager.h', 'conex/kkt_solver.cc'],
  [('per-constraint loops', 'PrepareStep, TakeStep, SetIdentity, Rank, GetWeightedSlackEigenvalues, ComputeMuFromLineSearch, AssembleSchurComplementResiduals, SupernodalKKTSolver::Assemble'), ('parallel lists', 'ConstraintManager::AddConstraint / AddEqualityConstraint'), ('binding', 'conex::Initialize')],
  'relational loop dataflow: index of the constraint, of its variable list and of the aggregated result compared on every loop back edge',
  STATIC + 'Complete over the number of constraints and the contents of the variable lists: the loop indices are symbolic. The scatter of the Schur complement into the supernodal blocks (pointer tables of SupernodalAssemblerBase) is not covered. ' + TRUST,
  observe=['conex::PrepareStep', 'conex::Solve', 'GetFeasibleObjective'])

P('C06', 'The solve verdict and status tell the truth about how the iteration ended',
  'The core solve returns exactly the solved flag it records in the program status, and the public solve calls (C API and the overload with a cost vector) return exactly that verdict. Success is reported only if the main iteration was left because its convergence criterion was met (the final centering tolerance, or the configured number of final centering steps), never after exhausting max_iterations, after a failed factorization, before iterating, or when the final duality measure exceeds the infeasibility threshold. primal_infeasible and dual_infeasible are set only together with a failure verdict and only beyond the infeasibility threshold. A solve that returns early (nothing to solve, refused options, failed initialization or factorization) leaves all flags cleared and reports zero iterations, whatever an earlier solve recorded; otherwise the reported number of iterations is the number of iterations performed.',
  ['inputs', 'configurations', 'histories'], 'all problems, all option values, any earlier solve of the same program',
  'Tests look at the verdict of problems that converge; exits by iteration limit, by factorization failure or with empty programs, and stale flags of an earlier solve, are not sampled.',
  ['conex/cone_program.cc', 'conex/cone_program.h', API],
  [('main iteration, its breaks and the final verdict', 'conex::Solve(Program&, const SolverConfiguration&, double*)'), ('public verdicts', 'CONEX_Solve, CONEX_Maximize')],
  'path-sensitive dataflow of the solve status against the conditions under which each exit of the main iteration is taken',
  STATIC + 'Complete over the paths of the core solve with the numerical kernels as unknowns: it decides which exit leads to which verdict, not whether the numbers are accurate. ' + TRUST,
  state=[('ConexStatus', 'verdict of the last solve', 'conex/cone_program.h')],
  observe=['conex::Solve', 'CONEX_Solve', 'CONEX_Maximize', 'Program::Status'])

P('C07', 'Newton steps come from a fresh, successful factorization and their own equations',
  'In the core solve, the KKT system is solved only with a factorization that reported success, of a matrix assembled after the last change of the iterate and factored once; a right-hand side built from the residual vectors (A w, A Q(w) c) uses those of the same iterate. The direction given to the constraints is the unmodified solution of that system, and its right-hand side carries the residual vectors and the cost with exactly the weights (identity weight, c weight, inv_sqrt_mu) that the step, or the line search that chooses mu, is told to use. A step is taken at most once per preparation, never after the iterate was reset in between, and its length never exceeds 1 nor 2/norminf^2. The direction from which dual variables are prepared obeys the same rules.',
  ['inputs', 'configurations', 'histories'], 'all problems, all option values, cold and warm starts, every factorization outcome',
  'A stale or failed factorization, a mismatched weight or an over-long step mostly costs iterations or accuracy that the convergence tests absorb; failed factorizations and abandoned warm starts are hardly sampled.',
  ['conex/cone_program.cc', 'conex/newton_step.h'],
  [('Newton system, step length, warm start abort, dual preparation', 'conex::Solve(Program&, const SolverConfiguration&, double*)'), ('mu selection', 'ComputeMuFromLineSearch, ComputeMuFromDivergence')],
  'typestate dataflow of the KKT system through the core solve, with symbolic comparison of each right-hand side with the weights of the step',
  STATIC + 'Complete over the paths of the core solve with numerical kernels as unknowns. Weights are compared as exact polynomials of the scalings, not in floating point. ' + TRUST,
  observe=['conex::Solve'])

P('C18', 'Linear solves apply the inverse of exactly the matrix that was factored',
  'A linear solve of the KKT solver applies exactly the factors that the last call of Factor computed (Cholesky, LDLT or QR), each once, between the permutation of the variables and its inverse. Cholesky is used only if no clique carries multipliers; a diagonal block that cannot be factored by Cholesky makes Factor report failure. Iterative refinement adds the solution for the residual b - A y of the matrix as it was before it was overwritten by its factors; QR factors that same matrix. Forward and backward substitution treat every supernode exactly once, with the piece of the vector that belongs to it, skipping only empty supernodes, with the pivoting permutation of a block on the right side and in the right direction, and subtract every separator contribution at its own variable. The factorization updates the entries between separators in the order in which their addresses are stored.',
  ['inputs', 'configurations', 'histories'], 'all clique structures (including empty supernodes), right-hand sides, solver modes, numbers of refinement steps, sequences of Factor and Solve',
  'Tests solve a few small structures, usually without empty supernodes, pivoting or refinement; a cursor that is left behind, a permutation in the wrong direction or a stale refinement matrix shows only for particular structures and only as a loss of accuracy.',
  ['conex/kkt_solver.cc', 'conex/kkt_solver.h', 'conex/block_triangular_operations.cc', 'conex/triangular_matrix_workspace.cc'],
  [('factor and solve', 'SupernodalKKTSolver::Factor, Solve, SolveInPlace, KKTMatrix'), ('block factorizations and substitutions', 'BlockTriangularOperations::*'), ('addresses of separator entries', 'TriangularMatrixWorkspace::S_S')],
  'typestate dataflow of the factorization object and symbolic comparison of every solve with the inverse of the factored matrix; block positions compared through closed forms of the loop counters',
  STATIC + 'Complete over block structures: block indices, offsets and separator positions are symbolic. Not decided: the contents of the intersection tables built by TriangularMatrixWorkspace, and the offset reached by the nested search loop of the backward substitution (reported as undecided). ' + TRUST,
  observe=['SupernodalKKTSolver::Factor', 'SupernodalKKTSolver::Solve', 'SupernodalKKTSolver::SolveInPlace'])

P('C27', 'Assembly puts exactly the entries of each clique matrix at their own variables',
  'When the KKT solver assembles the system, every constraint first recomputes its matrix once; then every entry of that matrix between two variables of its clique is stored (if the block belongs to this clique) or added (if other cliques contribute to it) exactly once at the position of the sparse matrix that belongs to these two variables, reading only the lower triangle of the clique matrix; positions that are fill-in for this clique receive zero. No block and no entry of a block is skipped, also when the same solver assembles a second time. A constraint writes its matrix in place only when the block covers its whole clique in its own order. The labels, memory blocks and constraint that are bound together belong to the same clique; all cliques are assembled, from the last of the elimination order to the first, so that nothing added to a block is overwritten.',
  ['inputs', 'configurations', 'histories'], 'all clique structures (fill-in, empty supernodes, cliques of one variable), any order of the cliques, repeated assembly',
  'Tests assemble a few structures once with fully symmetric matrices; unsorted labels, fill-in within a supernode, single separators and repeated assembly give wrong systems that no sample shows.',
  ['conex/supernodal_assembler.cc', 'conex/supernodal_assembler.h', 'conex/supernodal_solver.h', 'conex/kkt_solver.cc', 'conex/triangular_matrix_workspace.cc'],
  [('stores', 'SupernodalAssemblerBase::UpdateBlocks, Set, SetLowerTri, Increment, IncrementLowerTri, Scatter, GetCoeff'), ('binding', 'DoBind, BuildBlock, BindDiagonalBlock, BindOffDiagonalBlock'), ('labels', 'SupernodalKKTSolver::RelabelCliques'), ('order', 'SupernodalKKTSolver::Assemble'), ('addresses of separator entries', 'TriangularMatrixWorkspace::S_S, LookupAddress')],
  'loop dataflow with symbolic indices: the value of every store into the sparse matrix compared with the clique entry named by the labels of its position',
  STATIC + 'Complete over block sizes, labels and numbers of cliques (symbolic); the decision to update in place is examined for blocks of one to three variables. Not decided: that the elimination order, supernodes and separators themselves (computed by graph algorithms) are right. ' + TRUST,
  observe=['SupernodalKKTSolver::Assemble', 'SupernodalKKTSolver::KKTMatrix'])

P('C09', 'Iteration statistics record every iteration and stay inside their storage',
  'In every solve the counter of recorded statistics starts at zero, also after earlier solves, and the solve makes room for at least max_iterations entries before it records any. Every pass of the main loop that prepares a Newton step records exactly one statistic, the 1/sqrt(mu) of that step, at the index given by the counter, and raises the counter by one, also when the warm start is abandoned in that pass or the loop ends with it; other passes record nothing and leave the counter unchanged. When the main loop ends by convergence or its limits, status num_iterations is the final counter. Making room for more entries than before leaves both series with room for that many entries, inside the storage and apart from each other. CONEX_GetIterationStats reads entry i, or num_iter + i for negative i, exactly when it lies between 0 and num_iter - 1, and then reports mu = 1/(recorded value)^2 and that index as the iteration number.',
  ['inputs', 'histories', 'configurations'], 'all numbers of recorded and requested iterations, option values, cold, warm and abandoned starts, sequences of solves with growing limits',
  'Tests query the statistics after one cold solve; an entry beyond the storage or a left-over one is ordinary memory that reads and writes without a crash.',
  ['conex/cone_program.cc', 'conex/workspace.h', 'interfaces/conex.cc'],
  [('recording', 'conex::Solve(Program&, const SolverConfiguration&, double*)'), ('room', 'WorkspaceStats::Reserve'), ('query', 'CONEX_GetIterationStats')],
  'induction over the passes of the main loop (counter, recorded entries) and symbolic case split of the query over all indices',
  STATIC + 'Complete over the paths of the core solve with numerical kernels as unknowns. Values are compared as exact terms. Assumes that the configuration is not modified by other threads. ' + TRUST,
  observe=['conex::Solve', 'CONEX_GetIterationStats'])

P('C30', 'Costs and solutions keep their sign and scale through a solve',
  'Whenever the core solve reports success, the memory of the caller holds the first m entries of the y that the last Newton step was prepared from, divided exactly once by the final 1/sqrt(mu) and exactly once by the scaling of c, whatever options are set. In every Newton system of the main loop the cost is the negated linear cost of the program in the first m entries, zero elsewhere, weighted with 1/sqrt(mu) of the step and the scaling of b; the c weight given to the step is 1/sqrt(mu) times the scaling of c. Initialize sets both scalings to 1 on every cold start. Solve(b, ...) replaces the linear cost of the program by -b (earlier costs are discarded); AddLinearCost adds its argument to the linear cost, or fails and leaves it unchanged; ClearLinearCosts sets it to zero. CONEX_Maximize hands on b unchanged, and both entry points let the solve write to the memory of the caller.',
  ['inputs', 'configurations', 'histories'], 'all costs, scalings, options, iteration outcomes and earlier solves',
  'Without rescaling both scalings are 1, so a missing, doubled or exchanged one shows only for badly scaled data with rescaling enabled; most tests look at residuals of well scaled problems.',
  ['conex/cone_program.cc', 'conex/cone_program.h', 'interfaces/conex.cc'],
  [('Newton system, unscaling', 'conex::Solve(Program&, const SolverConfiguration&, double*)'), ('cost', 'Solve(b, ...), Program::AddLinearCost, ClearLinearCosts'), ('cold start', 'conex::Initialize')],
  'matrix expressions as exact terms: the result is compared with y / (1/sqrt(mu)) / c_scaling in every combination of conditions under which success is reported',
  STATIC + 'Complete over the paths of the core solve with numerical kernels as unknowns; scalings are exact terms, not floating point. ' + TRUST,
  observe=['conex::Solve', 'CONEX_Maximize', 'CONEX_Solve'])

P('C10', 'Every assembly of a constraint\'s Newton system starts from scratch',
  'When a constraint of any kind writes its Newton system with initialize=true, nothing of what the storage held before survives: the matrix G, the vectors AW and AQc and both inner products are each either cleared before anything is added to them, or overwritten over the whole size of the system, also when the constraint has fewer variables than the system; and nothing that the constraint has stored is cleared afterwards. With initialize=false every store adds to the old value, and it adds the very contribution that initialize=true stores. The solver assembles every clique with initialize=true, and the type-erased interface passes the flag and the system on unchanged.',
  ['inputs', 'configurations', 'histories'], 'all constraint kinds and sizes, systems of the size of the constraint or larger, any previous content of the storage, both forms of assembly',
  'The storage is reused in every iteration and shared by all constraints of a clique size; a stale entry appears only for constraints with fewer variables than their clique or from the second iteration on, and merely disturbs the Newton direction.',
  ['conex/dense_lmi_constraint.cc', 'conex/equality_constraint.cc', 'conex/hermitian_psd.cc', 'conex/linear_constraint.cc', 'conex/quadratic_cone_constraint.cc', 'conex/quadratic_cost.cc', 'conex/soc_constraint.cc', 'conex/newton_step.h', 'conex/constraint.h', 'conex/supernodal_assembler.h'],
  [('assembly', 'ConstructSchurComplementSystem of every kind'), ('reset', 'WorkspaceSchurComplement::setZero'), ('flag', 'SupernodalAssembler::SetDenseData, Constraint::Model<T>::do_schur_complement')],
  'dependence analysis of every store into the Newton system: typestate of each field (stale, rebuilt, contributed) per path, coverage of the written extent, and comparison of the storing and the adding form',
  STATIC + 'Complete over sizes and paths. Values are compared as polynomials of matrix expressions; differently built expressions are left undecided. Local results of loops shared by both forms are identified by name. ' + TRUST,
  observe=['ConstructSchurComplementSystem'])

P('C08', 'Workspace regions are disjoint, aligned and inside the reported size',
  'For every workspace (linear, semidefinite, Hermitian, second-order cone, Newton system, statistics, blocks of the sparse KKT matrix), every matrix and number that is placed in a piece of memory, by Initialize or by a constructor that is given memory, lies inside the size the workspace reports with SizeOf, overlaps no other one, and starts at a 16-byte boundary where its type promises alignment; reported sizes keep that alignment for what follows; none of the members is left without memory. A list of workspaces gives each its own piece, one after the other, and reports the sum. The memory of a program (its own or the one handed in by the user) is at least as large as the reported size of the list that is placed in it when it is placed, and the list holds the workspace and the Newton system of every constraint, the statistics and the system of the program. Statistics that are enlarged stay inside their own storage. A sparse matrix places its blocks in its own memory, measured for its own structure.',
  ['inputs', 'configurations'], 'all orders and numbers of variables (including 0 and odd ones), all lists of workspaces, all clique structures, internal and external memory',
  'Overlap or overrun by one entry depends on the remainder of a size modulo four; it corrupts a temporary that is mostly rewritten before it is read, and Eigen bounds checks are off.',
  ['conex/linear_workspace.h', 'conex/psd_constraint.h', 'conex/hermitian_psd.h', 'conex/workspace_soc.h', 'conex/newton_step.h', 'conex/workspace.h', 'conex/memory_utils.h', 'conex/triangular_matrix_workspace.h', 'conex/triangular_matrix_workspace.cc', 'conex/supernodal_solver.h', 'conex/cone_program.h'],
  [('layouts', 'Initialize / SizeOf of every workspace, constructors that take memory'), ('lists', 'SizeOf, Initialize of std::vector<Workspace>'), ('program memory', 'Program::InitializeWorkspace'), ('sparse matrix', 'SparseTriangularMatrix, TriangularMatrixWorkspace'), ('rounding', 'get_size_aligned')],
  'symbolic layout analysis: offsets and extents of all regions as polynomials of the sizes, compared pairwise and with the reported size',
  STATIC + 'Complete over sizes (polynomials with the rounded size as an unknown that is at least its argument; the rounding function is decided by constant evaluation over its period). A violation is reported only with concrete sizes that show it. Assumes that the lists of supernodes, separators and supernode sizes have equal length and that memory handed to a matrix by its caller is large enough. ' + TRUST,
  observe=['Initialize', 'SizeOf', 'Program::InitializeWorkspace'])

P('C11', 'The type-erased interfaces carry out exactly the operation asked for',
  'Every operation that a program performs on a constraint or a workspace through the type-erased classes Constraint and Workspace (setting to the identity, preparing and taking a step, line search, slack eigenvalues, Schur complement, rank, number of variables, workspace, updates of the linear operator and the affine term, size, initialization) reaches the operation of the same name of the wrapped object, for every wrapped type (bounds delegate the line search to the linear constraint they are): it is carried out exactly once on every path, on the object that was added, with the arguments the caller gave in the same order, and the caller receives its result. The dual variable queries are not part of this property.',
  ['inputs', 'configurations', 'histories'], 'all operations, all wrapped types, all arguments',
  'Forwarders are instantiated once per wrapped type and tests exercise few of the combinations with arguments that would tell a swap; most arguments are equal (0, square matrices) in the tests.',
  ['conex/constraint.h', 'conex/workspace.h'],
  [('constraint', 'Constraint, Constraint::Model<T>'), ('workspace', 'Workspace, Workspace::Model<T>')],
  'call-forwarding analysis over the type-checked program: operation, object, arguments, number of calls and result of every forwarder on every path',
  STATIC + 'Complete over the operations and the wrapped types that are instantiated in the library sources. ' + TRUST,
  observe=['PrepareStep', 'TakeStep', 'PerformLineSearch', 'GetWeightedSlackEigenvalues'])

P('C12', 'Operations on a constraint touch only what they are for',
  'For every constraint kind: no operation of the solver (identity, preparing and taking a step, line search, slack eigenvalues, Schur complement, rank) changes the problem data of the constraint. Line search, slack eigenvalues, Schur complement and rank leave the iterate (W) as it is. Resetting to the identity and taking a step each rewrite the whole iterate on every path, and the identity does not depend on the iterate before it. Nothing an operation computes depends on what its temporaries held before the call, except that taking a step uses the direction, all of which the preparation of the (geodesic) step has written on every path. In the core solve, a step that has been prepared is taken, or the iterate is reset, before the constraints are used again.',
  ['inputs', 'configurations', 'histories'], 'all constraint kinds and sizes, all arguments, any earlier content of temporaries, all orders of the operations',
  'Temporaries usually still hold plausible numbers of the previous iteration, and a small change of data or iterate in a query only slows convergence; both stay within the tolerances of the tests.',
  ['conex/linear_constraint.cc', 'conex/psd_constraint.cc', 'conex/dense_lmi_constraint.cc', 'conex/hermitian_psd.cc', 'conex/soc_constraint.cc', 'conex/quadratic_cone_constraint.cc', 'conex/quadratic_cost.cc', 'conex/equality_constraint.h', 'conex/cone_program.cc'],
  [('operations', 'SetIdentity, PrepareStep, TakeStep, PerformLineSearch, GetWeightedSlackEigenvalues, ConstructSchurComplementSystem, Rank of every kind'), ('prepared step', 'conex::Solve(Program&, const SolverConfiguration&, double*)')],
  'interprocedural effect and def-use analysis: write sets per operation, upward-exposed reads of temporaries, coverage of the iterate per path, typestate of the prepared step',
  STATIC + 'Complete over paths; members written only inside loops over elements count as written. Virtual functions of a constraint are analysed on their own. The members that are iterate (W, W0, W1) and temporaries are known to the check by name. ' + TRUST,
  observe=['PrepareStep', 'TakeStep', 'SetIdentity', 'PerformLineSearch', 'GetWeightedSlackEigenvalues'])

P('C25', 'Every constraint kind reports complete and consistent eigenvalue summaries',
  'For every constraint kind: preparing a (geodesic) step sets both norms of the direction (norminfd and normsqrd) on every path, and querying the weighted slack eigenvalues of a kind of non-zero rank sets lambda_min, lambda_max, trace and frobenius_norm_squared on every path; none of them depends on what the structure held before, and kinds of rank zero report norms of zero. The summaries belong together: lambda_max is the largest and lambda_min the smallest of one vector of eigenvalues; trace and frobenius_norm_squared are the trace (with the sign of the eigenvalues) of that matrix and the trace of its square, for kinds of rank two the sum and the sum of squares of the two eigenvalues; norminfd is the larger of the absolute values at the two ends of the spectrum of the direction; normsqrd is the squared norm of that same direction (tr M^2 + 2 tr M + rank for a direction M plus the identity). Each depends on the iterate, the point and the weight of the affine term that were passed. (The heuristic eigenvalues of the octonion cone are only required to be set.)',
  ['inputs', 'configurations', 'histories'], 'all constraint kinds and sizes, all points, weights and iterates, any earlier content of the structure',
  'The summaries only steer the choice of mu and the step length: a wrong sign, end or factor makes the solver slower or unreliable for some cones and starting points, but sampled problems still converge.',
  ['conex/linear_constraint.cc', 'conex/psd_constraint.cc', 'conex/hermitian_psd.cc', 'conex/soc_constraint.cc', 'conex/quadratic_cone_constraint.cc', 'conex/equality_constraint.cc', 'conex/quadratic_cost.cc'],
  [('norms of the step', 'PrepareStep of every kind'), ('slack eigenvalues', 'GetWeightedSlackEigenvalues of every kind'), ('rank', 'Rank of every kind')],
  'symbolic dataflow: definite assignment of the fields on every path and algebraic relations between their final values',
  STATIC + 'Complete over paths and sizes. Relations are decided for values in the recognised forms (extremes, traces, squared norms, selections); other forms are left undecided. Not decided: that the approximate eigenvalues are those of the matrix. ' + TRUST,
  observe=['PrepareStep', 'GetWeightedSlackEigenvalues', 'Rank'])

P('C28', 'The dual variable that a program reports is that of the final iterate',
  'For every constraint kind: after it has been set to the identity, a step has been taken, or an affine step (PrepareStep with the affine flag) has been applied, the member of its workspace that the dual variable interface reads (workspace()->W) is the iterate, or a view of the storage that the iterate then has, or holds a copy of the iterate as it then is. An affine step of a kind with an iterate adds to the iterate a change that depends on the step; for kinds whose change is a single product it is added once, with positive sign. The type-erased interface copies exactly that member, all rows and columns of it, to the start of the memory of the caller and reports rows times columns as its size. Program::GetDualVariable(i) takes it from the i-th constraint and, when a solve has been made, divides it exactly once by the 1/sqrt(mu) of the last iteration and once by the scaling of b.',
  ['inputs', 'configurations', 'histories'], 'all constraint kinds and sizes, all iterates, steps and numbers of iterations',
  'Primal results do not show a stale or mis-scaled dual variable, and which storage an iterate occupies depends on the history of moves and copies; the tests query dual variables of few kinds after few histories.',
  ['conex/cone_program.h', 'conex/constraint.h', 'conex/hermitian_psd.h', 'conex/hermitian_psd.cc', 'conex/psd_constraint.cc', 'conex/linear_constraint.cc', 'conex/soc_constraint.cc', 'conex/quadratic_cone_constraint.cc', 'conex/workspace_soc.h'],
  [('iterate and its view', 'SetIdentity, TakeStep, PrepareStep of every kind'), ('copy', 'Constraint::Model<T>::do_get_dual_variable, do_dual_variable_size'), ('scaling', 'Program::GetDualVariable')],
  'alias and value analysis of the reported member against the iterate on every path; symbolic normal forms of the affine change, the copy and the scaling',
  STATIC + 'Complete over paths and sizes for the recognised forms. The sign and factor of the affine change are decided only where it is a single product. ' + TRUST,
  observe=['GetDualVariable', 'TakeStep', 'PrepareStep', 'SetIdentity'])

P('C26', 'Loops make progress towards their end on every path',
  'Every counting loop of the library (the main iteration of a solve, iterative refinement, eigenvalue and exponential approximations, assembly, ordering, factorization and the entry points) comes at least one integer step closer to the failure of its condition on every path through its body, including paths that continue early or retry: neither the counter is set back nor the bound moved away. Range loops do not change the size of their range while they go through it. While loops that carry nothing but their counter from one pass to the next do the same. No loop is ended by floating-point comparisons alone. So the number of iterations of a solve is at most max_iterations. (While loops over work lists, iterator loops and loops without a condition are not part of this property.)',
  ['inputs', 'histories'], 'all loops of all functions, all values, all paths through their bodies',
  'A retry that is not counted or a bound that moves hangs only for inputs that fail repeatedly; every test terminates.',
  ['conex/cone_program.cc', 'conex/kkt_solver.cc', 'conex/approximate_eigenvalues.cc', 'conex/exponential_map.cc', 'conex/clique_ordering.cc', 'conex/block_triangular_operations.cc', 'conex/triangular_matrix_workspace.cc', 'conex/constraint_manager.h', 'interfaces/conex.cc'],
  [('main iteration', 'conex::Solve(Program&, const SolverConfiguration&, double*)'), ('refinement', 'SupernodalKKTSolver::SolveInPlace'), ('loops', 'every loop of every function in conex/ and interfaces/')],
  'ranking analysis: the loop condition is evaluated symbolically at the head of the loop (fixpoint over all iterations) and on every back edge, and the integer measure must decrease',
  STATIC + 'Complete over loops and paths; loops with a constant number of passes are unrolled. Functions with loops are opaque to their callers. Loops in Eigen and the standard library are trusted. ' + TRUST,
  observe=['Solve', 'SolveInPlace'])

P('C13', 'Solves depend only on the program and the configuration they are given',
  'No function of the library keeps state outside the objects its caller owns or draws on such state: none refers to a variable of static or thread storage duration that can change (global, static member, or local static), keeps a value computed from the arguments of its first call, or uses a random generator, a clock, the environment, locale or rounding mode of the process, or another thread. (Writing to the standard output streams, and the function MatrixAlgebra::Random itself, which only its callers use, are exempt.) So the same calls on equal programs give the same results, in any order, and programs that share no objects do not influence each other.',
  ['histories', 'schedules', 'inputs'], 'all functions of the library, all histories of calls in a process, all interleavings of calls on separate programs',
  'State that outlives a call shows only when particular calls follow each other in one process, or in several threads; each test runs its own short history and compares against its own tolerance.',
  ['conex/cone_program.cc', 'conex/hermitian_psd.cc', 'conex/psd_constraint.cc', 'conex/kkt_solver.cc', 'conex/divergence.cc', 'conex/approximate_eigenvalues.cc', 'conex/jordan_matrix_algebra.cc', 'interfaces/conex.cc'],
  [('whole program', 'every function in conex/ and interfaces/'), ('eigenvalue approximation', 'PrepareStep, GetWeightedSlackEigenvalues of HermitianPsdConstraint')],
  'whole-program effect analysis of the type-checked syntax tree: static storage and hidden sources of state',
  STATIC + 'Complete over the functions the library instantiates. State inside Eigen and the standard library is trusted, except the functions named in the rule. In the configuration with timers (thorough tier) clocks are exempt. ' + TRUST,
  observe=['Solve'])

P('C22', 'Entry points create the constraint they name from the data they are given',
  'Whenever a CONEX_New* or CONEX_Add* function of the C interface adds a constraint or cost to the program: CONEX_NewLinearMatrixInequality adds a matrix inequality over the algebra of the requested hypercomplex dimension, of the requested order, with one zero affine matrix of that order per component, and octonion matrices only up to order 3; CONEX_NewLinearInequality a linear constraint that is zero with num_rows rows and one column per variable; CONEX_NewLorentzConeConstraint a second-order cone constraint of the requested order with zero data of order + 1 rows; CONEX_NewQuadraticCost a zero matrix with one row and column per variable. CONEX_AddDenseLinearConstraint, CONEX_AddDenseLMIConstraint and CONEX_AddSparseLMIConstraint add a constraint of that kind whose affine term, operator and i-th coefficient matrix are the arrays of the caller read by columns with the dimensions the caller gave (the i-th starting i*rows*cols entries into the array), in the sparse case on the variables listed by the caller. CONEX_AddLinearInequalities passes the whole matrix and both bounds, lower and upper, to the preprocessing and adds the inequalities and the equations it yields, each with its own right-hand side, whenever there are any. (CONEX_AddQuadraticCost is not part of this property.)',
  ['inputs', 'configurations'], 'all arguments, all orders and sizes',
  'Tests of the C interface use square data, few orders and one or two of the hypercomplex dimensions; swapped dimensions, a wrong algebra for one dimension or a dropped equation only show for the others.',
  ['interfaces/conex.cc', 'conex/hermitian_psd.h', 'conex/soc_constraint.h', 'conex/linear_constraint.h', 'conex/dense_lmi_constraint.h', 'conex/equality_constraint.h'],
  [('C interface', 'CONEX_New*, CONEX_Add*'), ('constructors', 'HermitianPsdConstraint, SOCConstraint, LinearConstraint, DenseLMIConstraint, EqualityConstraints')],
  'symbolic value analysis of the object passed to Program::AddConstraint on every path of every entry point',
  STATIC + 'Complete over paths. Constructors are followed; storage conventions are those of the type of the view. ' + TRUST,
  observe=[API])

P('C24', 'Rows of linear inequalities keep their bounds',
  'The preprocessing of lb <= A x <= ub (PreprocessLinearInequality) turns every row of A, in order, into rows that keep their own bound: when lb and ub of a row are equal, exactly one equation, a multiple of the row with the same multiple of the bound as right-hand side; otherwise a positive multiple of the row with the same multiple of ub as right-hand side exactly when ub is below 1e8, and a negative multiple of the row with the same multiple of lb exactly when lb is above -1e8, and nothing else. Rows go to the inequality outputs and equations to the equation outputs. AppendRow keeps the rows that are there and puts the new ones after them. (The scale itself, and rows that are all zero with zero bounds, are not part of this property.)',
  ['inputs'], 'all matrices and bounds, all numbers of rows, all combinations of finite, infinite and equal bounds',
  'Tests use a few rows with few of the combinations of bounds; a scale or sign that belongs to the other bound is invisible when bounds are symmetric or the norms agree.',
  ['conex/linear_constraint.cc', 'interfaces/conex.cc'],
  [('preprocessing', 'PreprocessLinearInequality'), ('append', 'AppendRow')],
  'symbolic value and path-condition analysis of every appended row; enumeration of the combinations of the conditions',
  STATIC + 'Complete over paths and rows: the loop body is analysed for an arbitrary row. ' + TRUST,
  observe=['CONEX_AddLinearInequalities', 'PreprocessLinearInequality'])


# ---- properties that static analysis cannot decide here
P('C40', 'Solutions are optimal to tolerance',
  'When a solve reports success, the point it returns violates the constraints and misses the optimal value by no more than a tolerance implied by the configuration.',
  ['inputs', 'configurations'], 'all feasible problems and configurations',
  'Tests check the optimum of a few dozen well-conditioned problems.',
  ['conex/cone_program.cc', 'conex/newton_step.h'], [('main iteration', 'conex::Solve')],
  na='the error of the returned point depends on rounding, conditioning and convergence of the iteration; no dataflow, type or effect argument bounds it')
P('C41', 'The barrier iteration converges from every interior start',
  'For strictly feasible problems the main iteration reaches the requested duality measure before max_iterations for suitable limits.',
  ['inputs', 'histories'], 'all strictly feasible problems and warm starts', 'Convergence is sampled on few problems.',
  ['conex/cone_program.cc', 'conex/divergence.cc'], [('main iteration', 'conex::Solve')],
  na='convergence is a quantitative statement about real-number iterates (self-concordance), outside what static analysis of the source can decide; C26 shows termination, C06 the verdict, C07 the step lengths')
P('C42', 'Approximate eigenvalues bound the true ones closely enough',
  'The extreme eigenvalues from the Lanczos-type and Jordan-algebra approximations are within the relative accuracy that the step rule relies on.',
  ['inputs'], 'all symmetric and hermitian matrices and start vectors', 'Tests compare a handful of random matrices.',
  ['conex/approximate_eigenvalues.cc', 'conex/jordan_matrix_algebra.cc', 'conex/eigen_decomp.cc'], [('approximation', 'ApproximateEigenvalues')],
  na='accuracy depends on the spectrum, the start vector and rounding; C25 decides which vector of eigenvalues the summaries are taken from')
P('C43', 'Matrix exponentials and geodesic updates are accurate and stay in the cone',
  'Taking a step multiplies the iterate by an accurate exponential of the direction, so the iterate stays in the interior of the cone.',
  ['inputs'], 'all directions of bounded norm', 'Tests compare small matrices at few scales.',
  ['conex/exponential_map.cc', 'conex/exponential_map_pade.cc', 'conex/geodesic.h'], [('exponential', 'ExponentialMap')],
  na='truncation error of Pade and Taylor approximants and positivity in floating point are numerical bounds')
P('C44', 'The divergence bound selects the largest admissible 1/sqrt(mu)',
  'The inverse of the divergence bound returns the largest 1/sqrt(mu) for which the divergence stays below the configured limit.',
  ['inputs'], 'all slack eigenvalue summaries and limits', 'Tests compare a few values with a bisection.',
  ['conex/divergence.cc'], [('inverse', 'DivergenceUpperBoundInverse')],
  na='the claim is that closed-form roots of transcendental and polynomial inequalities are maximal, a statement of real analysis about runtime values')
P('C45', 'The clique order gives a chordal supernodal structure without missing fill-in',
  'For every list of cliques the elimination order, separators and supernodes cover all entries that the factorization fills in.',
  ['inputs'], 'all clique lists', 'Tests use chains, trees and a few random graphs.',
  ['conex/clique_ordering.cc', 'conex/elimination_tree.cc', 'conex/triangular_matrix_workspace.cc'], [('ordering', 'PickCliqueOrder'), ('supernodes', 'GetData')],
  na='needs a graph-theoretic invariant of set-valued containers over the history of merges (running intersection), which the abstract domain cannot express; C27 decides that entries go to the labels the structure names, C18 that every block is used once')
P('C46', 'Sparse and dense treatment of the same problem agree',
  'Splitting the variables into cliques, or giving them all to one clique, yields the same solution up to rounding.',
  ['inputs', 'configurations'], 'all problems and clique lists', 'Few structures are compared.',
  ['conex/supernodal_solver.h', 'conex/kkt_solver.cc'], [('both solvers', 'SupernodalKKTSolver')],
  na='an equality of two numerical runs; its structural parts (assembly, factorization, gathering per constraint) are decided by C27, C18, C20 and C10')
P('C47', 'A warm start reaches the same optimum as a cold start',
  'Solving again from the last iterate after an update of coefficients gives the optimum of the updated problem.',
  ['histories', 'inputs'], 'all sequences of solves and updates', 'Few sequences with small updates are sampled.',
  ['conex/cone_program.cc'], [('warm start', 'conex::Solve')],
  na='whether the old iterate leads to the new optimum is numerical; C07, C12 and C28 decide that no stale factorization, direction or dual variable is used')
P('C48', 'Language bindings behave like the C interface',
  'The Python and MATLAB wrappers pass every argument to the C call of the same purpose with the right type and shape.',
  ['inputs'], 'all wrapper calls', 'The wrappers are not run by the tests.',
  ['interfaces'], [('SWIG and MATLAB wrappers', 'interfaces/')],
  na='the wrappers are SWIG interface, Python and MATLAB files outside the C++ front end used here, and MATLAB has no parser in this sandbox; a partial textual comparison would not be a sound decision')
