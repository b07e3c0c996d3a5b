"""Source of properties.jsonl and MANIFEST.json: python lib/spec.py rewrites both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'dedalus/core/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


prop('P01', 'Spectral transforms are exact and invertible',
     'For every basis, coefficient/grid size, scale factor, tensor rank, axis position and transform library, writing grid values of a function the basis resolves and reading coefficients gives its exact spectral coefficients, and evaluating those coefficients on any other supported grid gives that function\'s exact values there. '
     'Grid-to-coefficient-to-grid and coefficient-to-grid-to-coefficient round trips return the data they started from (projected only by the documented truncation), and the transforms are linear.',
     ['inputs', 'configurations'], 'all bases x sizes (odd/even, one to dozens) x scales (up- and down-sampling) x libraries x ranks x real/complex x data',
     'Tests check a fixed handful of sizes, scales and ranks and mostly compare the code with itself (round trips); sizes, scale ratios, libraries and tensor ranks combine freely.',
     [C+'transforms.py', C+'basis.py', 'dedalus/libraries/spin_recombination.pyx', 'dedalus/libraries/fftw/fftw_wrappers.pyx', C+'distributor.py'],
     [('transform plans per library', C+'transforms.py'), ('basis forward/backward transforms', C+'basis.py'), ('group element maps', C+'basis.py:m_maps/ell_maps')],
     'runtime monitoring: transform outputs of real executions checked online against closed-form functions and independently evaluated spectral sums',
     'randomised sizes/scales/libraries; exactness to rounding-level tolerances on functions the basis resolves')
prop('P02', 'Layout and scale changes never alter the field they represent',
     'Any history of layout changes, scale changes, reads, in-place writes, copies and full-layout requests on a field leaves it representing the same function as the last write (truncated only where a grid coarser than the basis was actually used to write it). '
     'The data view returned always has the shape, dtype and contents of the requested layout and scales, a scale change preserves all the data, and preset or written data replace earlier contents completely.',
     ['histories'], 'random sequences of field accesses (layouts, scales, partial layouts, towards/require calls, copies, reads, writes)',
     'Tests take one path per field; buffers are shared between all layouts and scales, so stale data depend on the history.',
     [C+'field.py', C+'distributor.py', C+'transforms.py'],
     [('layout walk', C+'field.py:Field.require_layout/towards_*'), ('shared buffer', C+'field.py:Field.preset_layout'), ('scales', C+'field.py:Field.change_scales')],
     'runtime monitoring: model-based history monitor (reference function state machine) over hooked real field objects',
     'random histories; quantised data with exact reference values')
prop('P03', 'Data distribution partitions exactly and transposes lose nothing',
     'For every process mesh, domain, scale and layout, the processes\' local elements partition the global elements exactly once (where not replicated), local shapes, slices and grids agree with what is stored, and no group is split between processes. '
     'Moving a field through any sequence of layouts on any number of processes conserves every value exactly, whatever transposition library, grouping or synchronisation option is chosen, including processes holding no data.',
     ['configurations', 'histories', 'schedules'], 'meshes of 1-8 processes x shapes (uneven, empty ranks) x bases x libraries x grouped/ungrouped transposes',
     'Tests run on one or a fixed number of processes with divisible sizes.',
     [C+'distributor.py', C+'transposes.pyx', C+'field.py', C+'evaluator.py'],
     [('block distribution', C+'distributor.py:Layout'), ('transposes', C+'distributor.py:Transpose, '+C+'transposes.pyx')],
     'runtime monitoring: offline conservation checker over per-rank recorded layouts/data from MPI executions with unique element tags',
     '1-8 MPI processes on one host; Open MPI shared-memory transport')
prop('P04', 'Results do not depend on the number or arrangement of processes',
     'Field data, operator evaluations, nonlinear expressions, global reductions, boundary/initial/eigenvalue solutions and file outputs are the same (to rounding) on every process count and mesh as on one process. '
     'Collective calls complete on every process, also when some hold no data.',
     ['configurations', 'schedules'], 'process counts and meshes x geometries x expressions, solvers and outputs',
     'The test suite runs serially; parallel runs add different data distributions, transposes and reductions.',
     [C+'distributor.py', C+'field.py', C+'operators.py', C+'subsystems.py', C+'solvers.py', C+'evaluator.py', 'dedalus/extras/flow_tools.py'],
     [('layouts', C+'distributor.py'), ('reductions', C+'field.py'), ('subproblem distribution', C+'subsystems.py')],
     'runtime monitoring: differential monitor comparing recorded serial and multi-process executions of identical programs',
     '1-6 MPI processes; shared-memory transport')
prop('P05', 'Differential operators equal vector calculus in every geometry',
     'Gradient, divergence, curl, Laplacian and coordinate derivatives of tensor fields of any rank give the exact components of the mathematical operation, in Cartesian (both handednesses), direct-product, polar, spherical-surface and spherical coordinates, at axes and poles too. '
     'This holds for compositions of them and wherever the operand is in coefficient or grid space.',
     ['inputs', 'configurations'], 'all geometries x basis parameters x ranks x tensor index x random resolved tensor fields x compositions',
     'Tests use a few hand-chosen functions at one resolution per geometry.',
     [C+'operators.py', C+'basis.py', C+'coords.py', 'dedalus/libraries/dedalus_sphere/jacobi.py', 'dedalus/libraries/dedalus_sphere/sphere.py', 'dedalus/libraries/dedalus_sphere/zernike.py', 'dedalus/libraries/dedalus_sphere/shell.py'],
     [('operator classes per geometry', C+'operators.py'), ('radial/spin matrices', C+'basis.py')],
     'runtime monitoring: operator outputs checked online against an exact polynomial/trigonometric vector-calculus oracle in the embedding space',
     'polynomial/trigonometric tensor fields resolved by the truncation')
prop('P06', 'Interpolation, integration, averaging and lifting are exact',
     'Interpolating a field at any point, edge or named position along any axis, integrating or averaging it over any coordinate, coordinate system or several of them, gives the exact values for resolved tensor fields in every geometry, with the correct measure and local-frame components. '
     'Lifting places the operand as the chosen mode of the output basis along the lifted axis and nothing else, and azimuthal averages keep exactly the axisymmetric part.',
     ['inputs', 'configurations'], 'all geometries x ranks x positions x coordinate subsets x basis parameters x random fields',
     'Tests use a few positions and volumes with simple functions.',
     [C+'operators.py', C+'basis.py', 'dedalus/tools/jacobi.py', 'dedalus/tools/clenshaw.py'],
     [('Interpolate/Integrate/Average/Lift', C+'operators.py'), ('per-basis matrices', C+'basis.py')],
     'runtime monitoring: operator outputs checked online against closed-form values and independent quadrature of the oracle function',
     'resolved functions; tolerances at rounding level')
prop('P07', 'Problem matrices act exactly as the operators they represent',
     'For every linear left-hand-side expression (differential operators, interpolation, lifting, components, products with non-constant coefficients of any rank, in every geometry), the assembled matrices applied to the coefficients of the variables give the coefficients of that expression evaluated on the same fields. '
     'This holds for every separable mode and for scalar, vector and tensor unknowns, and the entries dropped or not depend only on the documented cutoffs.',
     ['inputs', 'configurations'], 'random linear expressions x geometries x coefficient fields x subproblems',
     'Tests only observe matrices through a few solved problems with fixed coefficients.',
     [C+'subsystems.py', C+'operators.py', C+'arithmetic.py', C+'basis.py', C+'problems.py', 'dedalus/tools/clenshaw.py'],
     [('expression matrices', C+'operators.py:LinearOperator.expression_matrices'), ('NCC matrices', C+'arithmetic.py, '+C+'basis.py'), ('assembly', C+'subsystems.py')],
     'runtime monitoring: conformance monitor comparing hooked subproblem matrices acting on live state with the evaluated expression',
     'NCCs of low degree so that truncated products are exact in the compared modes')
prop('P08', 'Products, functions and tensor algebra act pointwise exactly',
     'Sums, products, dot, cross, trace, transpose, skew and component operations, powers and universal functions of fields (with constants, arrays, missing dimensions, different bases of one domain and different ranks) equal the pointwise operation on grid values, in every geometry and handedness. '
     'Results of resolved polynomial products are free of aliasing on sufficiently dealiased grids.',
     ['inputs', 'configurations'], 'random expression trees x ranks x operand domains x geometries x layouts',
     'Tests combine few operand pairs; broadcasting, missing axes and ranks multiply.',
     [C+'arithmetic.py', C+'operators.py', C+'coords.py', C+'basis.py', C+'domain.py'],
     [('arithmetic nodes', C+'arithmetic.py'), ('tensor operators', C+'operators.py')],
     'runtime monitoring: evaluated expressions checked online against independent pointwise evaluation of the oracle fields',
     'universal functions compared on the grid where they are evaluated')
prop('P09', 'Evaluating an expression uses current data and disturbs nothing',
     'Each evaluation of an expression reflects the operands\' current data, however often and in whatever order expressions sharing operands or subexpressions are evaluated and whatever layout or scales the operands are in. '
     'Evaluation never changes the function any operand represents, nor results returned earlier by expressions that are not themselves being evaluated again (an expression may reuse its own output field), whether or not stored outputs, grouped evaluation or cached intermediate results are used, and also when an evaluation is interrupted by an error and tried again.',
     ['histories'], 'random sequences of evaluations, operand writes, layout changes over shared expression graphs',
     'Tests evaluate freshly built expressions once.',
     [C+'future.py', C+'evaluator.py', C+'operators.py', C+'arithmetic.py', C+'field.py'],
     [('evaluation and temporary storage', C+'future.py:Future.evaluate/attempt'), ('grouped evaluation', C+'evaluator.py')],
     'runtime monitoring: history monitor over hooked expression graphs with reference values recomputed after every step and operand fingerprints',
     'random histories of bounded length')
prop('P10', 'Symbolic manipulation preserves the meaning of expressions',
     'Expanding, splitting by variables, substituting and simplifying expressions gives expressions that evaluate to the same field as the original (the parts of a split summing to it, with and without the chosen variables). '
     'Symbolic linearisation equals the derivative of the expression in the given direction for every variable and background, and linearity checks accept exactly the linear expressions.',
     ['programs', 'inputs'], 'random expression trees (operators, products, powers, functions) x variable subsets x perturbations',
     'Tests check a few short expressions.',
     [C+'arithmetic.py', C+'operators.py', C+'field.py', C+'future.py', C+'problems.py'],
     [('split/expand/replace/frechet_differential', C+'arithmetic.py, '+C+'operators.py, '+C+'field.py')],
     'runtime monitoring: random expression programs executed with evaluation monitors comparing original and transformed expressions and finite-difference derivatives',
     'random trees of bounded depth; polynomially interpolated directional derivatives')
prop('P11', 'Linear boundary-value solutions satisfy their equations',
     'The solution returned for any well-posed linear boundary-value problem satisfies every equation and boundary condition to solver accuracy and equals the manufactured solution, in every geometry, for scalar and tensor unknowns, with non-constant coefficients, mode-dependent equations, gauge conditions and repeated solves with new right-hand sides.',
     ['inputs', 'configurations'], 'random manufactured problems x geometries x bases x boundary conditions',
     'Tests have a fixed set of problems with one manufactured solution.',
     [C+'problems.py', C+'solvers.py', C+'subsystems.py', C+'operators.py', 'dedalus/libraries/matsolvers.py'],
     [('matrix assembly and permutation', C+'subsystems.py'), ('solve', C+'solvers.py:LinearBoundaryValueSolver')],
     'runtime monitoring: equation-residual monitor and manufactured-solution oracle on solver executions',
     'randomised manufactured solutions resolved by the discretisation')
prop('P12', 'Nonlinear solves are Newton iterations that reach true solutions',
     'Each iteration for a nonlinear boundary-value problem applies the exact Newton correction (scaled by the given damping) of the equations at the current state, so errors contract quadratically near a solution and linear problems converge in one step. '
     'States accepted as converged satisfy the equations and boundary conditions, and iteration counts and perturbation norms reported are those of the steps taken.',
     ['inputs', 'histories'], 'random nonlinear systems x initial guesses x damping sequences x re-solves',
     'Tests converge a few fixed problems and look only at the final state.',
     [C+'solvers.py', C+'problems.py', C+'arithmetic.py', C+'operators.py'],
     [('Newton iteration', C+'solvers.py:NonlinearBoundaryValueSolver'), ('symbolic differential', C+'problems.py:NLBVP')],
     'runtime monitoring: per-iteration monitor of residual/correction against a directional-derivative oracle and convergence-order checker',
     'random problems with known solutions')
prop('P13', 'Eigenpairs reported satisfy the eigenproblem',
     'Every finite eigenvalue and eigenvector returned, from dense or sparse solves, right or left, satisfies the generalised eigenproblem of the stated equations when the mode is loaded as the state, boundary conditions included. '
     'Dense solves report the whole spectrum, sparse solves the requested number nearest the target, left and right modes are biorthogonal with the documented normalisation, and solving again, for other modes or after changing parameters, is not affected by earlier solves.',
     ['inputs', 'histories', 'configurations'], 'random eigenproblems x targets x N x left/right x subproblems x repeated solves',
     'Tests compare a few known eigenvalues.',
     [C+'solvers.py', C+'subsystems.py', C+'problems.py', 'dedalus/tools/array.py'],
     [('dense/sparse solves', C+'solvers.py:EigenvalueSolver'), ('scipy wrappers', 'dedalus/tools/array.py')],
     'runtime monitoring: residual, completeness and biorthogonality monitors over recorded eigenpairs against independently assembled operators',
     'random problems of moderate size')
prop('P14', 'Time steps follow the documented scheme exactly',
     'For every timestepper and every sequence of step sizes, each step advances the state exactly as the scheme\'s published formula with the implicit and explicit terms of the equations at the right times (including start-up steps of multistep schemes, time-dependent forcing and step-size changes), so it converges at its order. '
     'Simulation time, iteration counters and stop conditions are those of the steps taken.',
     ['histories', 'configurations'], 'all schemes x random step-size sequences x stiff/forced/algebraic/nonlinear systems',
     'Tests check fixed-step convergence of a few schemes on one ODE.',
     [C+'timesteppers.py', C+'solvers.py', C+'subsystems.py'],
     [('MultistepIMEX/RungeKuttaIMEX', C+'timesteppers.py'), ('step and proceed', C+'solvers.py:InitialValueSolver')],
     'runtime monitoring: step-by-step trace of the live solver checked against an independent implementation of the published schemes',
     'reference coefficients re-derived independently of the code under test')
prop('P15', 'Trajectories do not depend on how the state is observed',
     'Reading, plotting, rescaling, evaluating expressions or output handlers, computing CFL and flow properties or logging statistics between steps changes nothing in the trajectory, and writing the state between steps affects it exactly as a restart from that state would. '
     'Two solvers in one program do not influence each other.',
     ['histories'], 'random observation/modification sequences interleaved with steps',
     'Tests run a solver without touching the state in between.',
     [C+'solvers.py', C+'timesteppers.py', C+'field.py', C+'evaluator.py', C+'subsystems.py'],
     [('state gather/scatter', C+'subsystems.py'), ('field buffers', C+'field.py')],
     'runtime monitoring: differential monitor over twin executions with and without injected observations',
     'random interleavings')
prop('P16', 'Output schedules fire exactly when due',
     'Handlers scheduled by iteration, simulation time, wall time or a custom condition write exactly at the iterations where their schedule is due, once per due instant and with no omission or drift, for any sequence of step sizes, several handlers at once, and starting from nonzero times or iterations.',
     ['histories', 'schedules'], 'step-size sequences x cadences x virtual wall clocks x handler sets x restarts',
     'Tests have no schedules beyond trivial cases.',
     [C+'evaluator.py', C+'solvers.py'],
     [('check_schedule', C+'evaluator.py:Handler'), ('evaluate_scheduled', C+'evaluator.py:Evaluator')],
     'runtime monitoring: offline trace checker comparing the recorded write events with an independent schedule specification under a virtual clock',
     'virtual clock injected by hooking time functions')
prop('P17', 'Output files hold exactly what was evaluated',
     'Every write stores each task\'s evaluated data with the requested layout, scales and name, grid/constant dimension scales, simulation time, iteration, timestep and write number, split into sets of at most the requested number of writes numbered consecutively. '
     'Overwrite and append modes affect only the handler\'s own files and never lose or duplicate writes, in serial and for every parallel output method.',
     ['histories', 'configurations'], 'tasks x layouts x scales x max_writes x modes x parallel methods x process counts',
     'Tests write one file and look at little of it.',
     [C+'evaluator.py'],
     [('H5 handlers', C+'evaluator.py:H5FileHandlerBase and subclasses')],
     'runtime monitoring: offline checker over recorded evaluations and the files produced',
     'local file system; MPI gather and virtual methods')
prop('P18', 'Checkpoints restart faithfully and post-processing keeps the data',
     'Loading any write of a state file restores all fields, tensor components, time and iteration, so that a continued run equals the uninterrupted one (exactly for one-step schemes), also with another resolution, layout, process count, or a file produced by another parallel method. '
     'Merging virtual output files and loading tasks for analysis preserve every value, coordinate and attribute.',
     ['histories', 'configurations', 'crash_points'], 'checkpoint instants x write indices x resolutions x process counts x interrupted runs',
     'Tests do not cover restart equality or merging.',
     [C+'solvers.py', C+'field.py', C+'evaluator.py', 'dedalus/tools/post.py'],
     [('load_state', C+'solvers.py'), ('Field.load_from_hdf5', C+'field.py'), ('merging', 'dedalus/tools/post.py')],
     'runtime monitoring: twin executions (uninterrupted vs killed and restarted) compared by an offline checker; value conservation over merged files',
     'runs ended at random steps')
prop('P19', 'Native kernels are memory-safe and exact for all shapes',
     'The compiled kernels (transposes, spin recombination, sparse/dense linear algebra helpers, FFTW plans) read and write only inside their arrays and have no undefined behaviour, for all sizes including zero and one, axes, dtypes, strides and thread counts they accept. '
     'Their results equal the plain array formulas they implement, and calls on different data never influence each other.',
     ['inputs', 'configurations'], 'kernel x shape (0,1,odd,large) x axis x dtype x sparse structure, under ASan/UBSan and without',
     'Tests reach the kernels through a few well-behaved shapes and no sanitizer.',
     [C+'transposes.pyx', 'dedalus/libraries/spin_recombination.pyx', 'dedalus/tools/linalg.pyx', 'dedalus/libraries/fftw/fftw_wrappers.pyx', 'dedalus/tools/array.py'],
     [('nogil kernels', 'dedalus/tools/linalg.pyx'), ('dispatch helpers', 'dedalus/tools/array.py')],
     'sanitizers (ASan, UBSan builds of the extensions, Cython bounds checking) plus result monitors against NumPy formulas',
     'instrumented rebuild of the current sources; MPI library itself not instrumented')
prop('P20', 'Adaptive timesteps and flow diagnostics report the true extremes',
     'The adaptive timestep recommended equals the documented advective limit of the current velocities on the current grid times the safety factor, bounded by the given minimum/maximum, change limits and threshold, only at its cadence, in every geometry and on every process count. '
     'Flow properties report exactly the global maximum, minimum, grid and volume averages of the requested expression.',
     ['inputs', 'histories', 'configurations'], 'velocities x geometries x parameter sets x histories of calls x process counts',
     'Tests cover a few constant velocities.',
     ['dedalus/extras/flow_tools.py', C+'operators.py', C+'basis.py'],
     [('CFL', 'dedalus/extras/flow_tools.py'), ('AdvectiveCFL', C+'operators.py, '+C+'basis.py')],
     'runtime monitoring: recommendations traced over runs and checked against an independently computed limit and clamp specification',
     'reference spacing formulas written from the documentation')
prop('P21', 'Random fills are reproducible and independent of distribution',
     'Filling a field with a seeded random distribution in any layout and at any scales gives the same global values on every process count, mesh and chunk size, different seeds give different values, and the values follow the requested distribution. '
     'Low-pass filtering keeps exactly the modes within the requested shape or scales and removes the others.',
     ['configurations', 'inputs'], 'shapes x layouts x seeds x distributions x meshes x ranks',
     'Tests do not compare distributions or process counts.',
     ['dedalus/tools/random_arrays.py', C+'field.py'],
     [('ChunkedRandomArray', 'dedalus/tools/random_arrays.py'), ('fill_random/low_pass_filter', C+'field.py')],
     'runtime monitoring: recorded per-rank fills reassembled and compared with serial executions; distribution statistics monitored',
     '1-6 processes')
prop('P22', 'Real and complex formulations agree',
     'The same problem posed with real and with complex data types gives the same results for transforms, operators, products, boundary-value and initial-value solutions, with complex results of real problems staying real.',
     ['configurations', 'inputs'], 'geometries x expressions x solvers x data in both dtypes',
     'Tests treat the two types separately.',
     [C+'basis.py', C+'operators.py', C+'transforms.py', C+'subsystems.py'],
     [('real/complex basis classes', C+'basis.py')],
     'runtime monitoring: differential monitor over twin real/complex executions',
     'shared random functions')
prop('P23', 'Solver and library choices do not change the answer',
     'Boundary-value, eigenvalue and initial-value results are the same to rounding for every matrix solver, transform library and combination of matrix options (boundary-row placement, variable ordering, tau placement, Woodbury/banded forms, storage of expanded matrices, entry cutoffs).',
     ['configurations'], 'problems x matrix solvers x option combinations x libraries',
     'Tests vary options for a few problems.',
     ['dedalus/libraries/matsolvers.py', C+'solvers.py', C+'subsystems.py', C+'transforms.py', 'dedalus/tools/array.py'],
     [('solver options', C+'solvers.py'), ('permutations', C+'subsystems.py')],
     'runtime monitoring: differential monitor over executions of one problem under all configurations, plus residual monitor',
     'solvers installed here')
prop('P24', 'Ill-posed or unsupported problems are rejected, not mis-solved',
     'Requests the library cannot honour (mismatched equation domains, bases, shapes or tensor types, nonlinear or time-dependent left-hand sides, non-square systems, undefined names, bad options, invalid layouts, shapes or bounds) raise an error, at the latest when the solver is built or the expression evaluated, and never give a silent wrong result. '
     'A rejected request leaves existing fields, problems and solvers usable.',
     ['inputs', 'programs'], 'catalogue of invalid requests x geometries x positions in valid programs',
     'Tests have few negative cases.',
     [C+'problems.py', C+'solvers.py', C+'operators.py', C+'arithmetic.py', C+'field.py', C+'domain.py', C+'basis.py', C+'coords.py'],
     [('checks at construction', C+'problems.py, '+C+'operators.py, '+C+'arithmetic.py')],
     'runtime monitoring: hostile workloads with a rejection monitor and an after-state monitor',
     'catalogue of rejections documented or present in the code')
prop('P25', 'Text equations mean what their operator form means',
     'A problem given as text, in any spacing, parenthesisation, operator order or use of namespace names (fields, operators, parameters, functions, time derivatives), builds the same matrices and right-hand sides as the same equations built from operator objects. '
     'Numbers and parameters in text keep full precision and names resolve to the given namespace at the time of definition.',
     ['programs', 'inputs'], 'random equations rendered as text and as objects',
     'Tests use whichever form is convenient for one problem.',
     [C+'problems.py', 'dedalus/tools/parsing.py', C+'operators.py'],
     [('parsing', 'dedalus/tools/parsing.py, '+C+'problems.py:add_equation')],
     'runtime monitoring: twin executions of text-built and object-built problems compared matrix by matrix and step by step',
     'random grammar of bounded depth')

NOT_APPLICABLE = []


def write(claimed=None):
    claimed = claimed if claimed is not None else [p['id'] for p in P if os.path.exists(f"{V}/checks/{p['id'].lower()}.py")]
    with open(f'{V}/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': './setup.sh',
         'checks': [{'property': p['id'], 'quick_cmd': f"./run.sh {p['id']} quick", 'thorough_cmd': f"./run.sh {p['id']} thorough",
                     'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in P if p['id'] in claimed],
         'not_applicable': NOT_APPLICABLE + [{'property': p['id'], 'reason': 'check not built yet'} for p in P if p['id'] not in claimed]}
    with open(f'{V}/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']


if __name__ == '__main__':
    write()
