"""Single source of properties.jsonl, MANIFEST.json, checks/config.json and the per-property part of DESIGN.md."""
T = 'acados/'
I = 'interfaces/acados_template/acados_template/'
QP_RULE_PREFIX = ''

PROPS = [
 dict(id='C01', module='c01', title='Integrators compute the step their method and options define',
  statement='For every model, parameter value, step length and integrator configuration, the simulation solvers return the state (and algebraic variables) that the selected Runge-Kutta scheme defines for that model. Different interfaces to the same solver return the same values, and the result does not depend on what was simulated before.',
  over=['inputs', 'configurations', 'histories'],
  text='random ODE/DAE models (explicit, implicit, generalized linear-nonlinear structure, discrete parameters), dimensions 1-5, Butcher tableaus of 1-9 stages, several steps per interval, step lengths, parameters, sequences of calls on one solver',
  why='The tests integrate a handful of fixed example models with fixed options and compare loosely; an error tied to a stage count, a collocation type, a dimension pattern or a second call shows only on other combinations.',
  files=[T + 'sim/sim_erk_integrator.c', T + 'sim/sim_irk_integrator.c', T + 'sim/sim_lifted_irk_integrator.c', T + 'sim/sim_gnsf.c', T + 'sim/sim_collocation_utils.c', I + 'acados_sim_solver.py', I + 'gnsf'],
  mechanism=[('explicit Runge-Kutta step', T + 'sim/sim_erk_integrator.c'), ('implicit Runge-Kutta Newton loop', T + 'sim/sim_irk_integrator.c'), ('structure-exploiting integrator and structure detection', T + 'sim/sim_gnsf.c'), ('Butcher tableau generation', T + 'sim/sim_collocation_utils.c')],
  quick=(600, 100), thorough=(8000, 3000),
  rule='the model is nonlinear in the state or control (not a purely affine model), so that the step is not reproduced by a wrong-but-consistent linear map',
  design='Generated: random expression models (SX and MX), integrator type ERK/IRK/LIFTED_IRK/GNSF, collocation type, stages, steps, Newton iterations, step lengths, parameter and state values, call sequences. Oracle: an independent numpy/CasADi reference (checks/refint.py) that builds the tableau itself and solves the stage equations by Newton to 1e-13; the GNSF runs use the automatic structure detection and are compared with the reference of the original model. Tolerance 1e-8 relative.'),
 dict(id='C02', module='c02', title='Integrator sensitivities are the derivatives of the integrator map',
  statement='Forward, adjoint and Hessian sensitivities returned by a simulation solver are the exact derivatives of the discrete-time map it computes, for any seed and any configuration that offers them. Sensitivities of algebraic variables obey the same rule.',
  over=['inputs', 'configurations', 'histories'],
  text='random models, integrator types, seeds (identity and arbitrary), options and call sequences as in C01',
  why='A wrong derivative still yields converging examples most of the time, so example-based tests do not notice it; only comparing derivatives on many models and seeds does.',
  files=[T + 'sim/sim_erk_integrator.c', T + 'sim/sim_irk_integrator.c', T + 'sim/sim_lifted_irk_integrator.c', T + 'sim/sim_gnsf.c', I + 'acados_sim_solver.py'],
  mechanism=[('forward sensitivity propagation', T + 'sim/sim_irk_integrator.c'), ('adjoint sweep', T + 'sim/sim_erk_integrator.c'), ('Hessian sweep', T + 'sim/sim_irk_integrator.c')],
  quick=(600, 100), thorough=(8000, 3000),
  rule='the model is nonlinear, so sensitivities vary with the point',
  design='Same generator as C01 with sensitivity options and seeds. Oracle: implicit-function-theorem derivatives of the reference scheme computed by CasADi/numpy; Hessians against differences of the exact adjoint; metamorphic: adjoint seed times forward seed identity.'),
 dict(id='C03', module='c03', title='The QP of every SQP iteration is the linearization of the user problem',
  statement='At any primal-dual point, the quadratic program that the nonlinear solvers build contains exactly the linearized dynamics and constraints, the gradient of the stated cost, the selected Hessian (Gauss-Newton or exact) and the bounds in step form, for every stage. This holds for every combination of cost types, constraint types, soft constraints, parameters, references, grids and cost scalings the description accepts.',
  over=['inputs', 'configurations', 'histories'],
  text='random optimal control problems: all cost types per stage, ERK/IRK/discrete dynamics with algebraic variables, box/linear/nonlinear/convex-over-nonlinear constraints, soft constraints in both index formats, one-sided bounds, initial-state variants, stage-wise parameters and references changed between calls, at random primal-dual points',
  why='The test suite solves fixed examples to convergence; a wrong entry for an unusual combination of cost type, stage, slack or parameter never appears in them, and a slightly wrong Hessian still converges.',
  files=[T + 'ocp_nlp/ocp_nlp_common.c', T + 'ocp_nlp/ocp_nlp_cost_ls.c', T + 'ocp_nlp/ocp_nlp_cost_nls.c', T + 'ocp_nlp/ocp_nlp_cost_conl.c', T + 'ocp_nlp/ocp_nlp_cost_external.c', T + 'ocp_nlp/ocp_nlp_constraints_bgh.c', T + 'ocp_nlp/ocp_nlp_constraints_bgp.c', T + 'ocp_nlp/ocp_nlp_dynamics_cont.c', T + 'ocp_nlp/ocp_nlp_dynamics_disc.c', I + 'acados_ocp.py', I + 'casadi_function_generation.py'],
  mechanism=[('stage-wise linearization', T + 'ocp_nlp/ocp_nlp_common.c'), ('cost modules', T + 'ocp_nlp/ocp_nlp_cost_nls.c'), ('constraint modules', T + 'ocp_nlp/ocp_nlp_constraints_bgh.c'), ('code generation of derivatives', I + 'casadi_function_generation.py')],
  quick=(300, 100), thorough=(4000, 3000),
  rule='the problem has nonlinear dynamics or a cost that is not linear least squares',
  design='Generated: checks/ocpgen.py draws a whole problem description and random primal-dual iterates. Oracle: an independent evaluation of the same problem in numpy/CasADi (own tableau, own cost and constraint derivatives, own slack bookkeeping) compared entry by entry with every field of the QP the solver built (A, B, b, Q, R, S, q, r, C, D, bounds, masks, index maps, slack penalties), in SQP and in the preparation phase of the real-time iteration.'),
 dict(id='C04', module='c04', title='Reported cost and residuals are those of the user problem at the current iterate',
  statement='get_cost returns the cost of the stated problem (stage costs with their scaling, including slack penalties) at the current iterate with the current parameters, references and weights, and get_residuals returns the four norms of the KKT conditions of that problem: stationarity, dynamics, inequality violation and complementarity (shifted by tau_min where set). This holds for points set by the user as well as for what a solver call left behind.',
  over=['inputs', 'configurations', 'histories'],
  text='random optimal control problems as in C03, random primal-dual points, runtime changes of parameters, references, weights and bounds, SQP / real-time iteration / feasible-QP solvers with 0-5 iterations, with and without tau_min',
  why='Tests print residuals or compare them with a tolerance at a solution, where all of them are zero; a residual that misses a term is zero there as well.',
  files=[T + 'ocp_nlp/ocp_nlp_common.c', T + 'ocp_nlp/ocp_nlp_sqp.c', T + 'ocp_nlp/ocp_nlp_sqp_rti.c', T + 'ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c', I + 'acados_ocp_solver.py'],
  mechanism=[('residual computation', T + 'ocp_nlp/ocp_nlp_common.c'), ('cost evaluation', T + 'ocp_nlp/ocp_nlp_common.c'), ('cost modules', T + 'ocp_nlp/ocp_nlp_cost_ls.c')],
  quick=(300, 100), thorough=(4000, 3000),
  rule='the problem is nonlinear or at least one solver step was taken between evaluations',
  design='Generated: problems of C03 plus solver type, iteration counts, globalization, tau_min, and a short history of set / solve / evaluate steps. Oracle: cost and the four infinity norms recomputed from the independent problem evaluation of checks/ocpgen.py at the iterate read back through get(); the residuals that the solver itself stored and the recomputed ones both have to agree.'),
 dict(id='C05', module='c05', title='Success status means the returned point solves the user problem to tolerance',
  statement='Whenever an optimal control solver returns status 0 (and, for the real-time iteration, whenever its residuals are below the tolerance), the primal-dual point it leaves satisfies the KKT conditions of the stated problem with the current data to the requested tolerances, and inequality multipliers are nonnegative. Problems that are strictly convex and feasible are solved successfully with the default algorithmic options, also in a sequence of calls with changed data. The reported status is one of the documented ones and agrees with the iteration counts.',
  over=['inputs', 'configurations', 'histories'],
  text='random convex and nonlinear problems as in C03, solver type (SQP, real-time iteration, SQP with feasible QP, DDP), QP solver (HPIPM partial/full condensing, OSQP), condensing block sizes, regularization, globalization, warm start, QP scaling, tolerance strategies, Anderson acceleration, and sequences of changes (references, parameters, initial state, bounds, reset, perturbation) and solves',
  why='Tests solve a fixed problem with a few option sets; a termination test that misses a residual, or a stale quantity after a data change, needs other combinations of options, problem structure and history.',
  files=[T + 'ocp_nlp/ocp_nlp_sqp.c', T + 'ocp_nlp/ocp_nlp_sqp_rti.c', T + 'ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c', T + 'ocp_nlp/ocp_nlp_ddp.c', T + 'ocp_nlp/ocp_nlp_common.c', T + 'ocp_nlp/ocp_nlp_qpscaling_common.c', T + 'ocp_qp/ocp_qp_partial_condensing.c', T + 'ocp_qp/ocp_qp_full_condensing.c', T + 'ocp_qp/ocp_qp_osqp.c'],
  mechanism=[('termination test', T + 'ocp_nlp/ocp_nlp_sqp.c'), ('condensing and expansion', T + 'ocp_qp/ocp_qp_partial_condensing.c'), ('globalization', T + 'ocp_nlp/ocp_nlp_globalization_merit_backtracking.c'), ('QP scaling', T + 'ocp_nlp/ocp_nlp_qpscaling_common.c'), ('regularization', T + 'ocp_nlp/ocp_nlp_reg_convexify.c')],
  quick=(400, 70), thorough=(5000, 3000),
  rule='at least one call in the history reported success, so that the implication was exercised',
  design='Generated: problems of checks/ocpgen.py, solver configurations of checks/solvercfg.py restricted to documented combinations, histories of data changes and solves. Oracle: the four KKT residuals recomputed by the independent evaluation at the returned point are below the tolerance when success is reported; strictly convex feasible problems have to succeed under default-like options; status codes and iteration counts are consistent.'),
 dict(id='C06', module='c06', title='The runtime interface stores what was set, and the solver uses exactly that',
  statement='After any sequence of setter, getter, reset, parameter, time-step, condensing and file/iterate-object operations on a solver, every getter returns the value most recently set for that field and stage (or the initial one after the documented resets), whatever the memory layout of the arrays passed, and nothing else changed. The next solver call works on exactly these data: changed bounds, weights, references, penalties, linear constraint matrices, parameters, global parameters and time steps enter the QP that is solved.',
  over=['inputs', 'histories'],
  text='random problems as in C03 and random histories of set / set_flat / set_params_sparse / cost_set / constraints_set / set_p_global / store and load iterate / iterate objects / reset with all flag combinations / new time steps with equal or other number of intervals / new condensing horizon / solve',
  why='Tests set a field once and solve; stale copies, wrong offsets of one stage or field and resets that forget something need histories and stage-wise different data.',
  files=['interfaces/acados_c/ocp_nlp_interface.c', I + 'acados_ocp_solver.py', I + 'c_templates_tera/acados_solver.in.c', I + 'acados_ocp_iterate.py', T + 'ocp_nlp/ocp_nlp_common.c', T + 'ocp_nlp/ocp_nlp_constraints_bgh.c', T + 'ocp_nlp/ocp_nlp_cost_ls.c'],
  mechanism=[('setters and getters', 'interfaces/acados_c/ocp_nlp_interface.c'), ('Python interface', I + 'acados_ocp_solver.py'), ('generated update and reset functions', I + 'c_templates_tera/acados_solver.in.c')],
  quick=(300, 80), thorough=(4000, 3000),
  rule='at least two operations were applied and at least one linearization was compared afterwards',
  design='Generated: stateful sequences of up to 12 operations. Oracle: a plain dictionary model of all stored data; all getters are compared after every operation (bitwise for stored vectors), and a zero-iteration solver call rebuilds the QP, which is compared with the independent linearization of checks/ocpgen.py at the stored iterate with the stored data.'),
 dict(id='C07', module='c07', title='QP solver interfaces: success means the stated QP is solved',
  statement='For every optimal-control-structured QP handed to AcadosOcpQpSolver or AcadosCasadiOcpQpSolver (field by field or from JSON), a reported success means that the returned primal-dual point satisfies the KKT conditions of exactly that QP: bound index maps, stage-varying dimensions, soft constraints with their index map, slack bounds, masks and equality flags included. Infeasible QPs are never reported as solved, strictly convex feasible ones are solved with default-like options, and the diagnostic utilities (cost, eigenvalues, condition numbers, constraint qualification, iterate conversion, warm start) describe that QP.',
  over=['inputs', 'configurations'],
  text='random QPs with 0-5 intervals, stage-varying state and control dimensions, controls at the last stage, permuted bound indices, soft rows with permuted/shared slacks, masks, non-zero slack bounds, tight and loose bounds, infeasible rows; HPIPM with partial (any horizon and block sizes) and full condensing, OSQP, CasADi back end; repeated solves',
  why='The tests load two stored QPs; errors in index maps or condensing for other structures do not show there.',
  files=[T + 'ocp_qp/ocp_qp_common.c', T + 'ocp_qp/ocp_qp_partial_condensing.c', T + 'ocp_qp/ocp_qp_full_condensing.c', T + 'ocp_qp/ocp_qp_xcond_solver.c', T + 'ocp_qp/ocp_qp_osqp.c', 'interfaces/acados_c/ocp_qp_interface.c', I + 'acados_ocp_qp.py', I + 'acados_ocp_qp_solver.py', I + 'acados_casadi_ocp_qp.py', I + 'acados_casadi_ocp_qp_solver.py'],
  mechanism=[('QP data transfer', 'interfaces/acados_c/ocp_qp_interface.c'), ('condensing and expansion', T + 'ocp_qp/ocp_qp_partial_condensing.c'), ('OSQP matrices', T + 'ocp_qp/ocp_qp_osqp.c'), ('CasADi formulation', I + 'acados_casadi_ocp_qp.py')],
  quick=(6000, 60), thorough=(60000, 3000),
  rule='the QP has at least one inequality row and a solve succeeded, or the QP is infeasible by construction',
  design='Generated: checks/qpgen.py builds QPs around a feasible trajectory together with its own numpy description. Oracle: KKT residuals and cost computed in numpy from that description, and the construction (feasible/infeasible). The installed HPIPM library has gaps that are not acados code (subset elimination of the initial state, masked or shared slacks, unconstrained scalar-state QPs, classical Riccati); those are only generated for the CasADi back end or carry no must-succeed claim.'),
 dict(id='C09', module='c09', title='Solution sensitivities and value gradients are the implicit derivatives',
  statement='At a solution returned with success, the forward and adjoint solution sensitivities with respect to the global parameters or the initial state are the implicit derivatives of the primal-dual solution of the stated problem, and the gradient (and Hessian) of the optimal value are the derivatives of the optimal value, for every stage, seed, slack and multiplier they report. The result does not depend on the order of evaluations, on what was solved before, or on whether the solution was computed or loaded and factorized.',
  over=['inputs', 'configurations', 'histories'],
  text='random optimal control problems with global parameters in dynamics, costs and constraints or with an initial-state condition; soft and one-sided constraints; SQP, real-time iteration, feasible-QP solvers; barrier parameter 0 to 1e-2; partial/full condensing; histories of parameter, reference, weight and initial-state changes; random seeds and subsets of stages and outputs',
  why='The tests compare sensitivities for a few examples with finite differences along one parameter; contributions of terminal constraints, slacks, mixed derivatives or stages that those examples lack go unnoticed.',
  files=[T + 'ocp_nlp/ocp_nlp_common.c', T + 'ocp_nlp/ocp_nlp_constraints_bgh.c', T + 'ocp_nlp/ocp_nlp_cost_external.c', T + 'ocp_nlp/ocp_nlp_dynamics_disc.c', I + 'acados_ocp_solver.py', I + 'casadi_function_generation.py'],
  mechanism=[('parametric right-hand sides and adjoints', T + 'ocp_nlp/ocp_nlp_common.c'), ('derivative functions of constraints', T + 'ocp_nlp/ocp_nlp_constraints_bgh.c'), ('Python evaluation and layout of sensitivities', I + 'acados_ocp_solver.py')],
  quick=(400, 70), thorough=(5000, 3000),
  rule='at least one solution without weakly active constraints was reached and its sensitivities were compared',
  design='Generated: problems of checks/ocpgen.py with exact Hessians restricted to what the sensitivity functions document as supported, histories of data changes and solves. Oracle: the implicit function theorem applied to the KKT system of the independent problem evaluation at the returned primal-dual point (the derivative with respect to the global parameters of stationarity, dynamics and constraints is a fourth-order difference of the independent evaluation); the value gradient is the same difference of the Lagrangian. Skipped: weakly active constraints, and active sets so sharp (lam/t > 1e12) that the factorized barrier Hessian has no digits left.'),
 dict(id='C13', module='c13', title='Every SQP iteration is the documented step',
  statement='From any iterate, one SQP iteration moves to iterate + alpha * step, where step and multipliers solve the quadratic program of that iterate with the Hessian regularized as documented for the chosen method and options (Levenberg-Marquardt term, adaptive bounds, QP scaling), alpha is the fixed step length or a power of the line-search reduction factor, and multipliers follow the documented full or damped rule. Stored iterates, step norms and all columns of the statistics table describe exactly these points, iterations stop exactly at the first point that meets the tolerances or at the iteration limit.',
  over=['inputs', 'configurations', 'histories'],
  text='random problems as in C03 with exact (indefinite) and Gauss-Newton Hessians, SQP with fixed step length, merit and funnel line search, all regularization methods with fixed/adaptive bounds, Levenberg-Marquardt weights, QP scaling, condensing, iteration limits, histories of data changes and repeated solves',
  why='A wrong regularization, damping or log entry still converges on the tested examples; only the individual step shows it.',
  files=[T + 'ocp_nlp/ocp_nlp_sqp.c', T + 'ocp_nlp/ocp_nlp_common.c', T + 'ocp_nlp/ocp_nlp_reg_project.c', T + 'ocp_nlp/ocp_nlp_reg_mirror.c', T + 'ocp_nlp/ocp_nlp_reg_convexify.c', T + 'ocp_nlp/ocp_nlp_reg_project_reduc_hess.c', T + 'ocp_nlp/ocp_nlp_reg_glm.c', T + 'ocp_nlp/ocp_nlp_globalization_fixed_step.c', T + 'ocp_nlp/ocp_nlp_globalization_merit_backtracking.c', T + 'ocp_nlp/ocp_nlp_globalization_funnel.c', T + 'ocp_nlp/ocp_nlp_qpscaling_common.c', I + 'acados_ocp_solver.py'],
  mechanism=[('SQP loop', T + 'ocp_nlp/ocp_nlp_sqp.c'), ('variable update', T + 'ocp_nlp/ocp_nlp_common.c'), ('regularization', T + 'ocp_nlp/ocp_nlp_reg_project.c')],
  quick=(400, 70), thorough=(5000, 3000),
  rule='at least one step between two stored iterates was compared with the optimality conditions of its quadratic program',
  design='Generated: problems of checks/ocpgen.py with solver options and random starting points; every iterate is read back. Oracle: the step implied by consecutive iterates must satisfy the KKT conditions of the independently evaluated QP whose Hessian blocks are regularized in numpy (checks/algo.py); statistics columns are compared with independently evaluated residuals and step norms. For CONVEXIFY and PROJECT_REDUC_HESS the claim is that the original QP is solved when the Riccati recursion shows that it needs no regularization.'),
 dict(id='C12', module='c12', title='Real-time iterations: each phase performs exactly its part of the step',
  statement='The preparation phase linearizes at the current iterate and leaves it unchanged; the feedback phase solves the regularized QP of that linearization for the bounds valid at feedback time and applies the step; calling both phases jointly is the same. The advanced-step variants first advance the initial state by the simulated dynamics and perform the iterations of their level (re-solve, zero-order, adjoint-corrected, full) before preparing. Logged residuals and QP statistics describe these points, and logging does not change the result.',
  over=['inputs', 'configurations', 'histories'],
  text='random problems as in C03, real-time iteration levels standard and A-D with 0-3 inner iterations, regularization methods, Levenberg-Marquardt term, step lengths, condensing, residual logging on/off, histories of control cycles with changed initial state, bounds, parameters, references, resets and perturbed iterates',
  why='The tests run closed loops and look at the control performance; a phase that uses stale or too new data still controls well.',
  files=[T + 'ocp_nlp/ocp_nlp_sqp_rti.c', T + 'ocp_nlp/ocp_nlp_common.c', T + 'ocp_nlp/ocp_nlp_constraints_bgh.c', T + 'ocp_qp/ocp_qp_partial_condensing.c', T + 'ocp_qp/ocp_qp_full_condensing.c', T + 'ocp_qp/ocp_qp_xcond_solver.c', I + 'acados_ocp_solver.py'],
  mechanism=[('phases and advanced steps', T + 'ocp_nlp/ocp_nlp_sqp_rti.c'), ('zero-order and adjoint-corrected QP updates', T + 'ocp_nlp/ocp_nlp_common.c')],
  quick=(400, 70), thorough=(5000, 3000),
  rule='at least one feedback step was compared with the optimality conditions of the prepared quadratic program',
  design='Generated: histories of control cycles. Oracle: a numpy model of the phases (linearization kept from the preparation, bounds read at feedback time, levels A-D with an independent QP solver for the inner iterations that cannot be observed); every observable step is checked against the KKT conditions of the QP of the model (checks/algo.py), residual logs against the independent residuals. Left out because the installed HPIPM (a library, not part of the repository) is wrong there: general constraints after the first stage of a block when only the right-hand side is condensed anew (shown with a stand-alone program against HPIPM alone), masks that change after the preparation, QPs with scalar states and no inequalities. FULL_CONDENSING_HPIPM is not reset by reset() (documented for one solver only), the model follows that. A QP that ran out of iterations (tolerated by the RTI, status 0) is only checked for its reported status.'),
 dict(id='C17', module='c17', title='Cost translations and cost queries keep the cost',
  statement='Translating cost terms (nonlinear least squares to convex-over-nonlinear, any type to external with numerical or symbolic references and weights, automatic type detection, copying the path cost to the initial stage) leaves the value, the derivatives and, where promised, the Gauss-Newton Hessian of every stage cost unchanged, for all states, controls, algebraic variables, parameters and references; new parameters are appended with their values. The cost expression queries return the stage cost for the stored or the given reference. The translated formulation is accepted.',
  over=['inputs', 'configurations'],
  text='random cost terms of all types at the initial, path and terminal stage, SX and MX symbolics, algebraic variables, stage-wise and global parameters, diagonal and full weights, custom outer Hessians, symbolic references/weights of some of the terms; quadratic, nearly quadratic, degenerate and parametric expressions for automatic detection',
  why='Tests translate one or two examples and compare solver runs; references, custom Hessians or one stage type that those examples do not use go unnoticed.',
  files=[I + 'acados_ocp.py', I + 'acados_ocp_cost.py', I + 'acados_model.py'],
  mechanism=[('translations and detection', I + 'acados_ocp.py')],
  quick=(6000, 40), thorough=(60000, 1500),
  rule='the formulation was translated (or its rejection was checked) and at least one cost term was compared at random points',
  design='Generated: formulations of checks/formul.py. Oracle: metamorphic; checks/formul.py evaluates the documented meaning of a cost term from the fields of the formulation, before and after the translation, and the results (value, gradient, Hessian, Gauss-Newton Hessian) have to agree at random points, with symbolic references and weights against the same term with these numbers put in. No solver is involved; that solvers implement this meaning is C03 and C04.'),
 dict(id='C18', module='c18', title='Constraints turned into penalties give the documented penalty',
  statement='Formulating constraints as L2 or Huber penalties adds to the cost of the chosen stage type exactly the documented penalty of the violation (zero inside the bounds, the requested curvature, linear growth beyond the Huber width, the requested exact, extended Gauss-Newton or bounded-below Hessian), for any number and order of calls, and leaves everything else unchanged. Translating to a feasibility problem penalizes the violation of all constraints with unit weight, removes them, and keeps the cost and the initial state condition as requested. Linear constraints can be added repeatedly.',
  over=['inputs', 'configurations', 'histories'],
  text='random formulations with all constraint kinds (state, control, linear, nonlinear, convex-over-nonlinear, one-sided, equal bounds, unbounded rows), cost types, penalty options and sequences of penalty calls; penalty functions at random points in every region',
  why='The tests look at one penalty in one region of one example; combinations of several penalties, cost types and stages, and constraint kinds left out of the translation, are not seen.',
  files=[I + 'acados_ocp.py', I + 'penalty_utils.py', I + 'acados_ocp_constraints.py'],
  mechanism=[('penalty formulation', I + 'acados_ocp.py'), ('Huber functions', I + 'penalty_utils.py')],
  quick=(6000, 40), thorough=(60000, 1500),
  rule='at least one penalty was active at an evaluated point, or several linear constraints were stacked',
  design='Generated: formulations of checks/formul.py with random constraints and penalty calls. Oracle: closed formulas of the documented penalties in numpy, added to the original cost term; value, gradient, Hessian and Gauss-Newton Hessian are compared away from kinks. The width of two-sided Huber penalties is taken relative to half the distance of the bounds (documented by symmetric_huber_penalty), min_hess is only used together with the extended Gauss-Newton Hessian.'),
 dict(id='C15', module='c15', title='Formulations survive JSON and only matching generated code is reused',
  statement='Writing a formulation to JSON and loading it back gives the same formulation: the same values, options, grids, expressions, and the same generated code. Dumping does not change the formulation. Creating a solver or integrator with code generation or compilation switched off reuses existing code exactly if it belongs to the same formulation (up to the given tolerance): a change of any expression, value, dimension or option leads to new code, and the solver obtained always behaves as the current formulation, whatever was generated before.',
  over=['configurations', 'histories'],
  text='random formulations and options, single changes of any property or expression of the formulation (sizes from 1e-15 up), sequences of solvers and integrators created from changing formulations with all combinations of generate/build, with automatic and fixed names',
  why='The tests reuse code of one unchanged or one visibly changed example; a property left out of the comparison or lost when loading shows up only for formulations that use it.',
  files=[I + 'acados_ocp.py', I + 'acados_ocp_solver.py', I + 'acados_sim_solver.py', I + 'acados_sim.py', I + 'utils.py', I + 'acados_model.py', I + 'acados_ocp_options.py', I + 'acados_ocp_constraints.py', I + 'acados_ocp_cost.py'],
  mechanism=[('serialization', I + 'acados_ocp.py'), ('comparison of formulations and hash', I + 'utils.py'), ('reuse decision', I + 'acados_ocp_solver.py')],
  quick=(600, 45), thorough=(20000, 1500),
  rule='a formulation was changed and its reuse refused, or a formulation was loaded and its code regenerated, or a solver was created over code of another formulation',
  design='Generated: OCP formulations (checks/ocpgen.py) and integrators (checks/simcase.py), random option values and random changes. Oracles: equality of all properties, expressions (evaluated at random points) and generated files after the round trip; reuse must be refused exactly if some property differs by more than the tolerance (GNSF integrators are always generated again: their structure is detected on generation); for solvers created over existing code, the linearization of the solver (or the integrator result) against the independent numpy/CasADi evaluation of the current formulation.'),
 dict(id='C23', module='c23', title='Batch solvers act on every problem exactly like individual solvers',
  statement='A batch solver (OCP or integrator) gives for every problem of the batch exactly the numbers and statuses an individual solver of the same formulation gives when it goes through the same operations: setting values, bounds, matrices and parameters, resetting, solving, factorizing, solution sensitivities, reading iterates. This holds for every number of threads and every batch size; when the batch grows or shrinks, the problems outside of the current batch keep their state, and added problems behave like newly created solvers.',
  over=['configurations', 'histories', 'schedules'],
  text='random formulations, solver options and sequences of batch operations with varying batch sizes, thread counts and memory layouts',
  why='The tests solve one fixed batch of a pendulum; state leaking between problems, wrong strides or rows and growing of the batch depend on the sequence of operations and on the batch size.',
  files=[I + 'acados_ocp_batch_solver.py', I + 'acados_sim_batch_solver.py', I + 'c_templates_tera/acados_solver.in.c', I + 'c_templates_tera/acados_sim_solver.in.c', I + 'acados_ocp_iterate.py'],
  mechanism=[('batch interface', I + 'acados_ocp_batch_solver.py'), ('batch functions of the generated code', I + 'c_templates_tera/acados_solver.in.c')],
  quick=(150, 45), thorough=(4000, 1500),
  rule='at least two problems and one batch solve (or an integrator batch)',
  design='Model-based: every operation is applied to the batch solver and to individual solvers created from the same generated code; after every operation all fields of all problems have to agree bit for bit, as well as statuses, sensitivities and sizes. Batches of 1 to 5 problems, 1 to 4 threads, C and Fortran ordered inputs.'),
 dict(id='C31', module='c31', title='A multi-phase problem is solved as the concatenation of its phases',
  statement='A solver of a multi-phase problem works on exactly the problem given by its phases: at any point the QP data, the cost and the residuals are those of the phases\' dynamics, path costs and path constraints at the nodes of the phase, with initial cost and constraints of the first phase, terminal cost and constraints of the last phase, and the phase-wise integrators, parameters, references, penalties and dimensions; when it reports success, the point satisfies the optimality conditions of this problem. This does not depend on how the phases were set, on names, or on a round trip through JSON.',
  over=['configurations', 'inputs'],
  text='one to four phases with random dynamics (explicit, implicit, GNSF, discrete, transitions between state dimensions), costs, constraints, slacks, parameters, and values changed at runtime',
  why='The tests solve fixed examples with two or three phases that use few features; every combination of a feature with a phase has its own code in a separate template.',
  files=[I + 'acados_multiphase_ocp.py', I + 'acados_ocp.py', I + 'acados_ocp_solver.py', I + 'c_templates_tera/acados_multi_solver.in.c', I + 'c_templates_tera/acados_multi_solver.in.h'],
  mechanism=[('phases to stages', I + 'acados_multiphase_ocp.py'), ('generated solver', I + 'c_templates_tera/acados_multi_solver.in.c')],
  quick=(170, 45), thorough=(5000, 1500),
  rule='more than one phase',
  design='Generated: a random single-phase problem per phase (checks/ocpgen.py) on a common grid. Oracle: the independent numpy/CasADi evaluation of each phase at the nodes that belong to it; compared are the QP matrices, vectors, masks and index sets of every stage at random primal-dual points, cost and residuals, after changing parameters, references, bounds and global parameters at runtime, and the KKT conditions after a successful solve.'),
 dict(id='C20', module='c20', title='Iterate and parameter containers hold exactly the values put into them',
  statement='Iterate objects (stage-wise, flattened, batched, lists of iterates) hold exactly the values they were built from: flattening concatenates the stages, JSON text and files restore every stage of every field, sums, differences and norms are elementwise, comparisons see any difference beyond the tolerance in any field and no other, batch elements are independent, arrays of iterates keep order. The parameter manager returns for every stage the value set last (or the default), in the order and shape of its expressions, also after the horizon changed; wrong names, stages and sizes are rejected.',
  over=['inputs', 'histories'],
  text='random iterates with stage-varying dimensions (also empty) and special values; random sequences of parameter manager operations',
  why='The tests do not cover the containers; lost or shifted stages depend on the horizon length, on empty fields and on the history of operations.',
  files=[I + 'acados_ocp_iterate.py', I + 'acados_param_manager.py'],
  mechanism=[('iterate classes', I + 'acados_ocp_iterate.py'), ('parameter manager', I + 'acados_param_manager.py')],
  quick=(1500, 25), thorough=(60000, 900),
  rule='a horizon of at least one interval and at least four non-empty fields, or at least one effective manager operation',
  design='Model-based: lists of vectors and dictionaries per stage are the model; every operation is compared with it bit for bit. The parameter vector of every stage is put back into the symbolic expressions (SX) or compared with the evaluated vector expression (MX).'),
 dict(id='C28', module='c28', title='MPC utilities describe the problem they were given',
  statement='The cost and constraint evaluator returns at any point exactly the stage cost, slack penalties and the soft and hard constraint violations of the formulation, and the cost of a trajectory as the solver evaluates it (with the terms, parameters and scaling of each node). The model with cost state integrates stage cost and slack penalties of the formulation. Constraint structure detection keeps the feasible set and turns exactly the constraints linear in state and control into bounds and linear constraints. The formulation with control horizon has the dynamics, costs and constraints of the given one with held controls on the given time grid, and is accepted; the given formulation is unchanged.',
  over=['inputs', 'configurations'],
  text='random formulations (all cost types, bounds, linear and nonlinear constraints, soft subsets, parameters, grids, SX and MX) and random points',
  why='The examples use these utilities on single problems with unit coefficients, one parameter and no offset; signs, offsets, stage dependent terms and parameters go unseen.',
  files=[I + 'mpc_utils.py', I + 'acados_ocp.py'],
  mechanism=[('evaluator, cost state, detection, control horizon', I + 'mpc_utils.py')],
  quick=(500, 40), thorough=(20000, 900),
  rule='at least one constraint (evaluator, detection) or a translated formulation',
  design='Independent evaluation: costs by the documented meaning of the cost types (as in C17), constraints row by row from the generated data. Detected constraints are compared through membership of random points and margins; the control horizon through the phase-wise dynamics, costs, bounds and time steps at random points with held controls. Parameters of the terminal node are those of the last interval (the evaluator stores no others), soft bounds on controls are excluded for the control horizon.'),
 dict(id='C24', module='c24', title='zoRO updates propagate uncertainty and tighten bounds as specified',
  statement='After a zoRO custom update the uncertainty matrices follow the covariance recursion on the current linearization (feedback gain, noise and parametric uncertainty in each documented mode, streamed or built-in matrices, time-varying noise), the gains of the Riccati modes are those of the Riccati recursion with the documented barrier terms, the returned outputs equal the internal matrices, and exactly the listed bounds of every node are tightened by the scaled back-off of their constraint while all others keep their values. A payload of wrong length is rejected without effect.',
  over=['inputs', 'configurations', 'histories'],
  text='random problems (ERK, IRK, discrete; bounds, linear and nonlinear constraints on path and terminal node, soft, one-sided, N from 1), zoRO descriptions (all feedback and uncertainty modes, all inputs and outputs, random index lists, noise dimensions different from nx), sequences of updates at random iterates',
  why='The examples run two descriptions with bounds and one nonlinear constraint each; terminal linear constraints, full noise matrices, non-streamed inputs and most combinations of modes are never generated.',
  files=[I + 'zoro_description.py', I + 'custom_update_templates/custom_update_function_zoro_template.in.c', I + 'acados_ocp_solver.py', T + 'sim/sim_erk_integrator.c', T + 'sim/sim_irk_integrator.c'],
  mechanism=[('recursion, gains and tightening', I + 'custom_update_templates/custom_update_function_zoro_template.in.c'), ('description and checks', I + 'zoro_description.py')],
  quick=(240, 45), thorough=(6000, 1200),
  rule='at least one tightened bound',
  design='Reference recursion in numpy on the linearization of the independent reference problem; the parameter sensitivities are compared with differences of the reference integration. After every update all matrices (getter and data payload), gains and all bounds of all nodes are compared. The barrier modes use constraint values of the QP, which the preparation phase of RTI does not provide, so they are driven with SQP; ill-posed Riccati recursions (indefinite R + B\'PB, active barrier) are counted as skipped.'),
 dict(id='C22', module='c22', title='The CasADi back end states the same problem as the OCP description',
  statement='The nonlinear program built by AcadosCasadiOcp / AcadosCasadiOcpSolver has, at every point and for all parameter, reference and bound values set at runtime, the objective, dynamics, bounds, constraints and slack penalties of the OCP description with the integrator configured for each interval. Iterates and multipliers set stage-wise, flat or as iterate objects enter the Lagrangian with the acados sign and ordering conventions and are returned unchanged by all getters; a successful solve returns a KKT point of the described problem. The Hessian provided with use_acados_hessian is the exact or Gauss-Newton Hessian acados would use. Single shooting gives the same values at the simulated states. Unsupported problems are refused.',
  over=['inputs', 'configurations', 'histories'],
  text='random formulations (all cost types, bounds, linear, nonlinear and convex-over-nonlinear constraints, softened nonlinear constraints with slack bounds, grids, SX and MX), iterates, setter sequences',
  why='The examples compare a few pendulum problems at the solution; mixed soft and hard rows, slack bounds, non-diagonal weights, per-interval integrators, flat multipliers and value getters go unseen.',
  files=[I + 'acados_casadi_ocp.py', I + 'acados_casadi_ocp_solver.py'],
  mechanism=[('NLP formulation', I + 'acados_casadi_ocp.py'), ('setters, getters and solution', I + 'acados_casadi_ocp_solver.py')],
  quick=(500, 45), thorough=(20000, 900),
  rule='a formulation was accepted and compared at three iterates (before and after setting parameters, references and bounds)',
  design='Independent evaluation: cost terms by their documented meaning (as in C17), constraint rows from the generated data, integrators from the published Runge-Kutta tables. Compared are objective, sorted signed constraint margins (independent of row order), the gradient of the CasADi Lagrangian at the multipliers passed through set (one nonzero multiplier per two-sided hard row, since CasADi keeps only the difference), the custom Hessian, all getters after a solver call with zero iterations, and the KKT conditions after IPOPT reports success. Soft bounds and linear constraints, algebraic variables and implicit integrators are refused by the code (NotImplementedError) and not generated; single shooting without fixed initial state or with state bounds is excluded.'),
 dict(id='C27', module='c27', title='Calls stay inside their memory and freeing a solver releases everything',
  statement='No call of the C library or of a generated solver, in any sequence the interface allows, reads or writes outside the memory it was given, uses freed memory, evaluates an invalid enumeration or boolean value, overflows a signed integer or dereferences a null pointer. Memory size computations cover what is used, for every dimension, option and horizon. Creating, using, resetting and freeing a solver (OCP, multi-phase, integrator or batch, also without any solve) releases all memory it allocated.',
  over=['inputs', 'configurations', 'histories'],
  text='the generators and operation histories of twelve other checks (integrators, OCP solvers, QP solvers, histories of getters and setters, iterates, batch, multi-phase, zoRO, split real-time phases) against an instrumented build of library and generated code, and random create-use-reset-free cycles with allocation counts',
  why='The memory of every module is computed by hand from dimensions and options; tests run few combinations without instrumentation, and an overrun of a block padded to 64 bytes has no visible effect until it hits the neighbour.',
  files=['acados/ocp_nlp/ocp_nlp_common.c', 'acados/sim/sim_irk_integrator.c', 'acados/ocp_qp/ocp_qp_osqp.c', 'acados/utils/external_function_generic.c', I + 'c_templates_tera/acados_solver.in.c'],
  mechanism=[('memory sizes and assignment', 'acados/ocp_nlp/ocp_nlp_common.c'), ('life cycle of the generated solver', I + 'c_templates_tera/acados_solver.in.c')],
  quick=(400, 75), thorough=(8000, 3000),
  rule='the case of the borrowed check is non-trivial there, or the life cycle has at least one solve',
  variant='asan', env={'LD_PRELOAD': '{ov}/lib/nodeepbind.so /usr/lib/gcc/x86_64-linux-gnu/13/libasan.so /usr/lib/gcc/x86_64-linux-gnu/13/libubsan.so',
   'ASAN_OPTIONS': 'detect_leaks=0:detect_odr_violation=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=16:verify_asan_link_order=0',
   'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=1:exitcode=99'},
  design='AddressSanitizer and UndefinedBehaviorSanitizer are the oracle; the functional oracles of the borrowed checks are ignored here. Library, generated code and CasADi functions are compiled with gcc -fsanitize=address,undefined and loaded into a Python process that preloads the runtimes (dlopen without RTLD_DEEPBIND). Leaks: bytes held by the allocator before and after n life cycles, where a constant surplus per cycle is a leak; the tables of the HPIPM compatibility shim are subtracted. Overruns between sub-blocks of one allocation stay invisible to AddressSanitizer and are left to the functional checks.'),
]

NOT_APPLICABLE = []
