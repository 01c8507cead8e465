import json
f=[
"fixed: property=C01 0c1f9bb GNSF: a linear model with an affine term was integrated from its sensitivities alone",
"fixed: property=C21 6795853 GNSF detection: selecting from scalar expressions changed shapes (memory overwritten for nx==1)",
"fixed: property=C01 6333ea8 GNSF detection: xdot in linear-output rows was dropped, algebraic output rows unchecked",
"fixed: property=C01 cf30a4a GNSF detection: crashes for nx==1, nu==0, purely linear and partially algebraic models",
"fixed: property=C03 d283e34 initial convex-over-nonlinear constraint used the path inner dimension",
"fixed: property=C03 48c8b36 numerical-Hessian option of stage 0 set from the path cost type (process terminated)",
"fixed: property=C03 20cfb7d Jacobian of h w.r.t. algebraic variables exported untransposed",
"fixed: property=C03 46de540 multi-phase solver: numerical-Hessian option of stage 0 from the path cost type",
"fixed: property=C03 c184094 z contribution of nonlinear constraint Jacobians added at rows ng instead of columns ng",
"fixed: property=C04 4fbd8a6 cost value after setting a new weight W used the old weight",
"fixed: property=C04 071653d complementarity residual with tau_min: equality multipliers zeroed at the wrong offset with slacks",
"fixed: property=C04 bde7da9 stationarity residual of convex-over-nonlinear constraints with idxs_rev lacked slack bound multipliers",
"fixed: property=C03 e63d771 output Jacobian w.r.t. z stored in a workspace matrix of transposed dimensions (overflow)",
"fixed: property=C04 47bb3c1 complementarity residual with tau_min: stages without inequalities kept the stationarity norm",
"fixed: property=C03 dad1ffe external cost Hessian cross terms with algebraic variables read outside the matrix",
"fixed: property=C01 3b7c531 GNSF detection rejected correct models by rounding errors and opened a debugger",
"fixed: property=C04 3c38394 integrator cost: cost value after setting a new weight W used the old weight",
"fixed: property=C04 e65f9e3 integrator cost: slack penalty in the cost value lacked the cost scaling",
"fixed: property=C03 ae846d0 integrator cost with non-diagonal weight used the transposed Cholesky factor",
"fixed: property=C05 4cab1f3 DDP with external QP residuals read an unallocated workspace",
"fixed: property=C05 69730e6 DDP reported success although the initial state condition was violated",
"fixed: property=C07 9266171 AcadosOcpQp.check_licq mixed up state and control bounds and assumed constant dimensions",
"fixed: property=C07 0344c9c CasADi QP back end applied soft bounds to the wrong variables",
"fixed: property=C07 8a65697 CasADi QP back end: multipliers of bounds ignored idxb, warm start with the wrong sign",
"fixed: property=C06 36b43e8 new time steps with an unchanged number of intervals did not reach the dynamics; GNSF kept matrices of the old step",
"fixed: property=C01 fc889a6 GNSF precomputation permuted the wrong right-hand side (ZZu twice, ZZx never)",
"fixed: property=C06 668411d time steps were read from the memory of a non-contiguous or integer array, kept by reference and stale after a reset; reset after changing N wrote out of bounds; set_params_sparse accepted negative indices and misread strided arrays",
"fixed: property=C02 9d60bae GNSF precomputation relied on a zero-initialized workspace",
"fixed: property=C09 1ffd5f6 LINEAR_LS cost with adjoint solution sensitivities crashed the process",
"fixed: property=C09 d0c8c89 value gradient/Hessian wrt the initial state wrong with slacks at stage 0, shape of slack sensitivities",
"fixed: property=C09 8a6d02b generated code with terminal h and adjoint solution sensitivities did not compile",
"fixed: property=C09 4e51942 value gradient wrt p_global lacked terminal constraints",
"fixed: property=C09 1a98678 forward sensitivities wrt p_global: sign of the mixed constraint derivatives",
"fixed: property=C01 d34fba8 GNSF detection crashed for variables that enter several equations",
"fixed: property=C13 21d0704 CONVEXIFY tested (and projected) a Hessian whose upper triangle was stale, and so changed the quadratic program although no regularization was needed",
"fixed: property=C12 177db88 workspace of ERK/IRK too small for adjoint-only evaluation (residual logging of real-time iterations)",
"fixed: property=C12 d5ae305 CONVEXIFY with separate phases: multipliers of the dynamics corrected with the gradient of an older problem",
"fixed: property=C12 0fbab33 statistics written beyond their memory (AS-RTI-A with as_rti_iter=0, repeated feedback)",
"fixed: property=C12 65acb4d AS-RTI-A ignored a failed QP of the preparation phase and returned success",
"fixed: property=C12 4df54dd residual logging overwrote the constraint Jacobian (and Hessian) of the prepared QP and logged outdated equality and inequality residuals",
"fixed: property=C17 2976c65 cost expression queries of CONVEX_OVER_NONLINEAR costs ignored the reference",
"fixed: property=C17 325729d copying the path cost to the initial stage dropped the custom outer Hessian",
"fixed: property=C17 3db4c9f automatic cost type detection raised instead of using EXTERNAL, and failed for MX",
"fixed: property=C17 6b35da7 translation to external cost failed for symbolic MX weights",
"fixed: property=C15 510c077 formulations loaded from JSON lost the x0 status, the time grid and the cost scaling",
"fixed: property=C15 14181fe AcadosSimSolver(generate=True, build=False) loaded the library of another formulation",
"fixed: property=C23 7d19674 solvers added when a batch grows lost the save_p_global setting",
"fixed: property=C31 2196b3b convex-over-nonlinear path constraints in multi-phase problems",
"fixed: property=C31 27d048c GNSF structure detection for the phases of multi-phase problems",
"fixed: property=C31 0394ce2 default parameters of multi-phase problems at the terminal node and with few nonzeros",
"fixed: property=C31 19bd785 several GNSF phases in one multi-phase problem",
"fixed: property=C18 c5b6e3a two-sided Huber penalty had four times the requested Hessian",
"fixed: property=C18 a1c7bfa L2 penalty on EXTERNAL cost needed (and extended) a least squares reference",
"fixed: property=C18 e9c2e63 L2 penalty on a cost with custom outer Hessian left that Hessian too small",
"fixed: property=C18 67559e2 second call of add_linear_constraint stored CasADi matrices of wrong shape",
"fixed: property=C18 3566906 feasibility problem dropped linear constraints",
 "fixed: property=C20 e414898 values of new stages after a horizon change and missing validation in AcadosParamManager",
 "fixed: property=C28 e416243 evaluator (parameters, first and terminal node, slacks), cost state penalty factor, constraint detection with negative coefficients and offsets, control horizon formulation",
 "fixed: property=C24 2c9a410 zoRO: terminal linear and nonlinear constraints used the path matrices, Riccati modes with linear constraints or parametric noise did not compile, barrier rows, full noise matrices with stage-wise additions, inputs not streamed, N=1",
 "fixed: property=C22 52cc332 CasADi OCP: ERK with other than 4 stages failed and per-interval integrators were ignored, slack bounds ignored, Hessian with soft, linear or BGP constraints failed or was wrong, Gauss-Newton Hessian wrong for non-diagonal W and without slack penalties, MX without references failed, single shooting with parameters failed",
 "fixed: property=C22 1bba76f CasADi OCP solver: flat multipliers misplaced with slacks, get_iterate with outdated names, cost_get failed, bounds of softened constraints could not be set, single shooting states wrong for several controls",
 "fixed: property=C27 b0a0458 AcadosSimSolver.get wrote beyond its dimension buffer",
 "fixed: property=C27 c02bb00 generated solvers leaked the arrays of functions for sensitivities of path constraints",
 "fixed: property=C27 e01e05d option integrator_cost is a bool but was read as an int",
 "fixed: property=C27 a088221 lifted IRK read its time argument beyond the argument arrays (and ignored time-varying dynamics)",
 "fixed: property=C27 895b798 freeing a solver with OSQP before its first call crashed",
]
f=[x.replace('C21','C01') for x in f]
FINDINGS=[]
json.dump({'findings':FINDINGS,'fixed':f},open('/verif/known_findings.json','w'),indent=1)
