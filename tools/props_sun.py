"""Properties of the bundled solver library, which user-defined solver options and programs linking it rely on."""
L = 'lib/sundials-6.1.1/'


def P(id, title, statement, over, text, why, files, mech, obs):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[L + f for f in files], mechanism=[dict(name=a, where=L + b) for a, b in mech], observe_at=obs, hook_needed=None))


PROPS = [
    P('C35', 'Vector operations of the solver library compute what they state',
      'Every operation of the serial, threaded, many-part and sensitivity-wrapper vectors of the bundled solver library, plain or fused and with any allowed '
      'aliasing of operands and result, gives elementwise results within rounding of the stated formula and reductions (norms, dot products, minima, '
      'flags) within rounding of the exact value, changes no vector but the stated one, gives clones with data of their own, packs and unpacks without loss, '
      'and is free of data races for every number of threads.',
      ['inputs', 'schedules', 'programs'], 'all lengths, numbers of threads and parts, operands, coefficients (also 0, 1, -1, equal ones), aliasing, fused operations on and off',
      'the tests of the repository use vectors only through the solver, with a few fixed lengths',
      ['src/nvector/serial/nvector_serial.c', 'src/nvector/pthreads/nvector_pthreads.c', 'src/nvector/manyvector/nvector_manyvector.c',
       'src/sundials/sundials_nvector.c', 'src/sundials/sundials_nvector_senswrapper.c'],
      [('N_V*_Serial', 'src/nvector/serial/nvector_serial.c'), ('N_V*_Pthreads', 'src/nvector/pthreads/nvector_pthreads.c'),
       ('N_V*_ManyVector', 'src/nvector/manyvector/nvector_manyvector.c'), ('generic operations', 'src/sundials/sundials_nvector.c')],
      ['elements of all vectors before and after each operation, returned values, thread sanitizer reports']),
    P('C36', 'Matrix operations of the solver library compute what they state',
      'Every operation of the dense, band and sparse (both forms) matrices of the bundled solver library gives the stated result for matrices of any shape, '
      'bandwidths, sparsity pattern, order of indices and spare room, with A = B allowed where the operation allows it: sums c A + B and c A + I, copies and clones '
      '(growing bandwidths and storage when needed), products with vectors, conversions between forms with a drop tolerance, storage changes and printed form; '
      'it changes no other matrix or vector, leaves every matrix well formed, and refuses shapes and kinds that do not fit.',
      ['inputs', 'programs'], 'all shapes also not square, bandwidths, patterns, coefficients (also 0, 1, -1), sequences of operations on a pool of matrices',
      'the tests of the repository use dense square matrices through the solver only',
      ['src/sunmatrix/dense/sunmatrix_dense.c', 'src/sunmatrix/band/sunmatrix_band.c', 'src/sunmatrix/sparse/sunmatrix_sparse.c', 'src/sundials/sundials_matrix.c'],
      [('SUNMat*_Dense', 'src/sunmatrix/dense/sunmatrix_dense.c'), ('SUNMat*_Band', 'src/sunmatrix/band/sunmatrix_band.c'),
       ('SUNMat*_Sparse', 'src/sunmatrix/sparse/sunmatrix_sparse.c')],
      ['elements and structure of all matrices after each operation, returned values']),
    P('C37', 'Direct solvers of the solver library solve the system to rounding',
      'The dense and band LU solvers of the bundled solver library, and its dense LU, Cholesky and QR routines for plain arrays, give for every nonsingular system '
      'solutions whose residual is within rounding of the factorisation, for any number of right-hand sides, with multipliers at most one (partial pivoting), with factors that multiply to the '
      'matrix, untouched right-hand sides and factors, and whatever was in the unused room of band storage; a matrix with a zero pivot is reported with the '
      'index of that pivot, and a matrix that is not singular is not reported.',
      ['inputs'], 'all sizes, bandwidths, scalings, permutations, singular and rank-deficient matrices, rectangular matrices for LU and QR',
      'the tests of the repository factor a few small well-conditioned Newton matrices',
      ['src/sundials/sundials_dense.c', 'src/sundials/sundials_band.c', 'src/sundials/sundials_direct.c', 'src/sunlinsol/dense/sunlinsol_dense.c', 'src/sunlinsol/band/sunlinsol_band.c'],
      [('SUNDlsMat_dense*', 'src/sundials/sundials_dense.c'), ('SUNDlsMat_band*', 'src/sundials/sundials_band.c'),
       ('SUNLinSol*_Dense', 'src/sunlinsol/dense/sunlinsol_dense.c'), ('SUNLinSol*_Band', 'src/sunlinsol/band/sunlinsol_band.c')],
      ['solutions, factors, pivots and returned flags']),
    P('C38', 'Iterative solvers of the solver library deliver the residual they report',
      'The GMRES, flexible GMRES, BiCGStab, TFQMR and conjugate gradient solvers of the bundled solver library follow their methods: success means a scaled and '
      'preconditioned residual within the tolerance, a reduced residual is smaller than the first, the reported norm and number of iterations are those of the method in exact '
      'arithmetic up to rounding, for preconditioning on any side, any scaling, start, restarts and orthogonalisation; the right-hand side is left alone, earlier solves and '
      'failures do not matter, failing callbacks end the solve with the stated flag, and the orthogonalisation and QR routines they are made of give '
      'orthogonal vectors whose product with the coefficients is what was given.',
      ['inputs', 'histories', 'faults'], 'all sizes, matrices, preconditioners, scalings, tolerances, starts, limits, settings changed later, callbacks failing at any call',
      'no test of the repository uses an iterative solver',
      ['src/sunlinsol/spgmr/sunlinsol_spgmr.c', 'src/sunlinsol/spfgmr/sunlinsol_spfgmr.c', 'src/sunlinsol/spbcgs/sunlinsol_spbcgs.c', 'src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c',
       'src/sunlinsol/pcg/sunlinsol_pcg.c', 'src/sundials/sundials_iterative.c', 'src/sundials/sundials_linearsolver.c'],
      [('SUNLinSolSolve_*', 'src/sunlinsol/spgmr/sunlinsol_spgmr.c'), ('SUNModifiedGS, SUNClassicalGS, SUNQRfact, SUNQRsol, SUNQRAdd_*', 'src/sundials/sundials_iterative.c')],
      ['solutions, reported norms, iteration counts and flags, callback calls']),
    P('C39', 'CVODES integrates ODEs to tolerance, densely and repeatably, with any solver attached',
      'For both methods, every nonlinear and linear solver, every kind of Jacobian, preconditioner, tolerance and option of the bundled CVODES: outputs agree with a reference solution to '
      'the tolerances times how errors grow, at requested times and in between; a stop time is never passed and is hit exactly; in every step the local error test held with the stated weights; '
      'the dense output is one polynomial of the order used, joins the previous step, and refuses times and derivatives outside it; step sizes, orders and counters are what was done and within the limits set; '
      'constraints hold at every step; the same calls after CVodeReInit or in a new object give bitwise the same values; on average neither the errors nor the work grow.',
      ['inputs', 'histories'], 'all problems, methods, solvers, tolerances, options and sequences of output times, tasks and stop times',
      'the tests integrate a few problems through fazang only, with one method configuration and two tolerances',
      ['src/cvodes/cvodes.c', 'src/cvodes/cvodes_io.c', 'src/cvodes/cvodes_ls.c', 'src/cvodes/cvodes_nls.c', 'src/cvodes/cvodes_bandpre.c', 'src/cvodes/cvodes_bbdpre.c', 'src/cvodes/cvodes_diag.c', 'src/sunnonlinsol/newton/sunnonlinsol_newton.c', 'src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c'],
      [('CVode, CVodeGetDky, CVodeReInit', 'src/cvodes/cvodes.c'), ('CVodeSet*, CVodeGet*', 'src/cvodes/cvodes_io.c'), ('cvLsSetup, cvLsSolve', 'src/cvodes/cvodes_ls.c')],
      ['values returned at every output, dense output, estimated local errors, weights, counters, calls of the callbacks']),
    P('C40', 'Roots found by CVODES are roots of the solution, all of them and in order',
      'Root functions of time and of the solution are reported when and only when they cross zero between the previous return and this one: at the reported time the function is zero within the stated '
      'time tolerance, the direction is the one of the crossing and allowed by the direction set, no crossing of a well separated function is missed and none comes twice, roots come in order of time '
      'and before outputs and stop times after them, functions zero at the start are left alone until they move away, and all of this is independent of the method, the tasks asked for and reinitialisation.',
      ['inputs', 'histories'], 'all root functions with separated crossings, directions, times, tasks, restarts',
      'no test of the repository uses root finding',
      ['src/cvodes/cvodes.c', 'src/cvodes/cvodes_io.c'],
      [('CVodeRootInit, cvRcheck1, cvRcheck2, cvRcheck3, cvRootfind', 'src/cvodes/cvodes.c'), ('CVodeGetRootInfo, CVodeSetRootDirection', 'src/cvodes/cvodes_io.c')],
      ['times and flags of every root returned, functions evaluated at them']),
    P('C41', 'Sensitivities and integrals computed by CVODES belong to the solution',
      'For the simultaneous and both staggered methods, sensitivity right-hand sides given at once, one by one or by differences, with integrals and their sensitivities: values agree with a reference to '
      'tolerance where they are in the error test; callbacks get f(t,y) and the integrand of the point they are called at; the dense output of each is one polynomial that joins the previous step; weights, counters and single values '
      'are consistent; runs repeated after reinitialisation are bitwise the same; sensitivities switched off, or carried along outside the error test, leave the solution bitwise as it is without them.',
      ['inputs', 'histories'], 'all problems, methods, parameters, ways to give the right-hand sides, tolerances, options, sequences of calls',
      'the tests compute sensitivities of a few problems through fazang, staggered and by its own right-hand side only',
      ['src/cvodes/cvodes.c', 'src/cvodes/cvodes_io.c', 'src/cvodes/cvodes_nls_sim.c', 'src/cvodes/cvodes_nls_stg.c', 'src/cvodes/cvodes_nls_stg1.c', 'src/nvector/senswrapper/nvector_senswrapper.c'],
      [('CVodeSensInit, CVodeSensInit1, CVodeQuadInit, CVodeQuadSensInit', 'src/cvodes/cvodes.c'), ('cvNls*SensSim', 'src/cvodes/cvodes_nls_sim.c'), ('cvNls*SensStg', 'src/cvodes/cvodes_nls_stg.c')],
      ['sensitivities, integrals and their dense output at every output, arguments of the callbacks, counters']),
    P('C42', 'Adjoint problems integrated backward by CVODES see the forward solution and give its gradients',
      'For backward problems of every kind (with or without forward sensitivities, integrals, any solver, several at a time, started anywhere in the forward interval), checkpoints at any distance and both '
      'interpolations, for forward integration in either direction: the callbacks are called inside the interval with the forward solution of that time; the backward solutions and integrals agree with gradients '
      'of the reference to the tolerances; all results handed out together belong to the time reported; checkpoints are listed in order and cover the forward integration; calls are counted; '
      'memory of the stored solution is never exceeded; a forward and backward pass repeated after reinitialisation gives bitwise the same values, and interpolations requested in between change nothing.',
      ['inputs', 'histories'], 'all problems, solvers, checkpoint distances, interpolations, sequences of forward and backward calls',
      'no test of the repository integrates an adjoint problem',
      ['src/cvodes/cvodea.c', 'src/cvodes/cvodea_io.c', 'src/cvodes/cvodes_ls.c', 'src/cvodes/cvodes_bandpre.c', 'src/cvodes/cvodes_bbdpre.c'],
      [('CVodeF, CVodeB, CVodeGetB, CVodeGetQuadB', 'src/cvodes/cvodea.c'), ('CVAdataStore, CVAckpntGet', 'src/cvodes/cvodea.c'), ('CVAhermiteGetY, CVApolynomialGetY, CVAfindIndex', 'src/cvodes/cvodea.c')],
      ['backward solutions and integrals, interpolated forward solution, checkpoint list, times and arguments of the callbacks, counters']),
    P('C43', 'CVODES reports failures of user functions, and nothing is left of them',
      'Whenever a user function of the bundled CVODES (right-hand side, Jacobian, its product, preconditioner, root function, integrand, sensitivity right-hand side, weights) fails, once, often or from some call on, '
      'a failure stated to be final ends the integration at once with the flag documented for that function and one that can be recovered from is overcome by smaller steps or reported by its own flag; '
      'the solution handed out with a failure, after it was overcome, or after going on, is accurate for its time; user data, parameters included, come back unchanged; a run after reinitialisation is bitwise the one before. '
      'A limit on steps stops after exactly that many, and going on gives bitwise the run without limit. Calls that must be refused are refused with the documented flag and change nothing.',
      ['faults', 'histories', 'inputs'], 'all problems, solvers, failing functions, calls at which they fail, sequences of calls',
      'no test of the repository makes a callback fail',
      ['src/cvodes/cvodes.c', 'src/cvodes/cvodes_io.c', 'src/cvodes/cvodes_ls.c', 'src/cvodes/cvodes_nls.c', 'src/cvodes/cvodes_nls_stg.c', 'src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c', 'src/sunnonlinsol/newton/sunnonlinsol_newton.c'],
      [('cvHandleNFlag, cvHandleFailure, cvStep', 'src/cvodes/cvodes.c'), ('cvSensRhs1InternalDQ', 'src/cvodes/cvodes.c'), ('SUNNonlinSolSolve_FixedPoint', 'src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c')],
      ['flags and messages, solutions at and after failures, repeated runs, parameters']),
    P('C44', 'KINSOL iterates as documented, reports honestly, and starts anew in each solve',
      'For every nonlinear system, strategy (Newton, line search, Picard, fixed point), linear solver and setting, each iterate of the bundled KINSOL is the one documented: the step solves the system of the Jacobian at an iterate seen before, to the tolerance of the forcing term; '
      'it is cut for constraints and step limits as stated, and the line search tries the shares stated and accepts only those that meet its conditions; accelerated iterations give what Anderson acceleration gives on the values seen, with damping and delay. '
      'Success is returned only if the stated norm is below the tolerance, never with values that are not numbers; limits are kept; counters match the calls seen; a failing function ends the solve with its documented flag, and nothing is computed from what it returned; '
      'scaling vectors and, on return, the solution are never left altered by difference quotients; solving again with the same object is bitwise the first solve, and settings can be given and taken back at any time without invalid memory accesses or leaks.',
      ['inputs', 'faults', 'histories'], 'all systems, strategies, solvers, settings, guesses, failing functions',
      'no test of the repository solves a nonlinear system with it',
      ['src/kinsol/kinsol.c', 'src/kinsol/kinsol_io.c', 'src/kinsol/kinsol_ls.c', 'src/kinsol/kinsol_bbdpre.c'],
      [('KINSol, KINLinSolDrv, KINLineSearch, KINConstraint, KINStop, KINPicardAA, KINFP, AndersonAcc', 'src/kinsol/kinsol.c'), ('kinLsDenseDQJac, kinLsBandDQJac, kinLsSolve', 'src/kinsol/kinsol_ls.c'), ('KINSetConstraints', 'src/kinsol/kinsol_io.c')],
      ['every call of the system function, setup and solve; flags, counters, norms, returned vectors']),
    P('C45', 'Every CVODES step, and every change of step and order, is the one the formulas give',
      'For every problem, method, order, sequence of step sizes, solver, and set of sensitivities and quadratures, the stored history of the bundled CVODES follows its variable-coefficient formulas: '
      'the history after a step is the predicted one plus multiples l(k) of one correction, for the solution, each sensitivity, each quadrature and each quadrature sensitivity alike; its polynomial satisfies the differential equation at the new point and reproduces the past values and derivatives the method rests on; '
      'a change of order adds or removes the documented term and a change of step rescales all terms; a step is accepted only when the weighted norm of its estimated error is at most one; '
      'the estimates use the coefficients of the step sizes taken, the first step is the documented estimate, and the next step and order are the largest allowed by the estimates for the order below, the same and the next, within the documented growth and waiting rules; '
      'after a failed error test or solve the step shrinks by the documented factors, the order falls and the method restarts only as documented, and nothing of the failed attempt stays in the history.',
      ['inputs', 'histories'], 'all problems, methods, tolerances, sequences of steps, orders and failures',
      'tests compare a few final values with loose tolerances; wrong coefficients for unequal steps or high orders cost accuracy or work only',
      ['src/cvodes/cvodes.c', 'src/cvodes/cvodes_nls.c', 'src/cvodes/cvodes_nls_stg.c', 'src/cvodes/cvodes_nls_sim.c'],
      [('cvAdjustAdams, cvIncreaseBDF, cvDecreaseBDF, cvRescale, cvPredict, cvRestore, cvCompleteStep', 'src/cvodes/cvodes.c'), ('cvSetAdams, cvSetBDF, cvSetTqBDF', 'src/cvodes/cvodes.c'), ('cvDoErrorTest, cvPrepareNextStep, cvChooseEta, cvSetEta, cvHin', 'src/cvodes/cvodes.c')],
      ['the whole history after every accepted step, step sizes and orders, weights, counters']),
    P('C46', 'The nonlinear solver objects iterate as documented',
      'For every system, initial guess, limit and pattern of failures, the Newton object of the bundled library makes the documented sequence of calls (residual, setup when asked for or when a recoverable failure met an outdated matrix, solve, convergence test), '
      'applies exactly the corrections the linear solver returns, repeats a failed attempt only with a refreshed matrix and returns the documented value otherwise; '
      'the fixed-point object produces the fixed-point iteration, and with m vectors the iteration of Anderson acceleration, damped as set, minimizing the documented residual over the last m differences; '
      'both count iterations and convergence failures exactly, refuse invalid settings without changing anything, and give the same result when a solve is repeated; '
      'a vector of vectors behaves as its parts taken one by one.',
      ['inputs', 'histories'], 'all systems, numbers of accelerated vectors, damping factors, sequences of failures and settings',
      'tests of fazang reach the solvers only through a few problems that converge; a wrong retry or acceleration costs iterations or convergence, not a final value',
      ['src/sunnonlinsol/newton/sunnonlinsol_newton.c', 'src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c', 'src/sundials/sundials_nvector_senswrapper.c', 'src/sundials/sundials_nonlinearsolver.c'],
      [('SUNNonlinSolSolve_Newton', 'src/sunnonlinsol/newton/sunnonlinsol_newton.c'), ('SUNNonlinSolSolve_FixedPoint, AndersonAccelerate', 'src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c'), ('vector operations', 'src/sundials/sundials_nvector_senswrapper.c')],
      ['calls made by the solvers with the vectors given, results, counters and flags']),
    P('C47', 'The solver of implicit systems returns solutions and gradients of the system given',
      'For every system F(t, y, y\') = 0 of the class handled, with or without algebraic components, every linear solver, tolerance, order limit and direction, the values, derivatives, quadratures and sensitivities returned by IDAS '
      'agree with the solution within a moderate multiple of the tolerances; algebraic equations hold and corrected start values are consistent; roots are reported once, in order, with the right direction; stop times are not passed; '
      'counters equal the calls made; when the residual or the Jacobian product fails, recoverably or not, when steps run out or a call is refused, the documented value is returned, nothing is taken as success, and a later call continues from the last good state; '
      'gradients from the backward problem agree with the derivative of the solution for every spacing of checkpoints and interpolation, in both directions.',
      ['inputs', 'histories', 'faults'], 'all systems, linear solvers, tolerances, directions, sequences of failures and checkpoint spacings',
      'tests of fazang never call this solver, which is part of the library it installs; a wrong interpolation or a failure taken as success shows in special histories only',
      ['src/idas/idas.c', 'src/idas/idas_ls.c', 'src/idas/idaa.c', 'src/idas/idas_ic.c', 'src/idas/idas_nls.c', 'src/idas/idas_io.c', 'src/idas/idaa_io.c'],
      [('IDASolve, IDAStep, IDANls, IDATestError, IDACompleteStep, IDAGetSolution', 'src/idas/idas.c'), ('idaLsSetup, idaLsSolve', 'src/idas/idas_ls.c'), ('IDASolveF, IDASolveB, IDAAhermiteGetY, IDAApolynomialGetY, IDAAfindIndex', 'src/idas/idaa.c'), ('IDACalcIC', 'src/idas/idas_ic.c')],
      ['values, derivatives, quadratures, sensitivities and gradients returned; times and arguments of all calls made; flags and counters']),
]
