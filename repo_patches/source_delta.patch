From 0c1f9bb9449de0d88d414bd0c96c41b4f6ee1d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:55 +0000
Subject: [PATCH 01/66] fix: GNSF integrator: a linear model with an affine
 term is not described by its sensitivities alone

---
 acados/sim/sim_gnsf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 2d31c70..43b2844 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -234,6 +234,12 @@ static void sim_gnsf_import_matrices(void *dims_, gnsf_model *model)
 
     model->nontrivial_f_LO = (tmp_nontriv_f_LO > 0);
     model->fully_linear = (tmp_fully_linear > 0);
+    // the constant sensitivities only describe the solution map if there is no affine term
+    for (int ii = 0; ii < nx2 + nz2; ii++)
+    {
+        if (model->c_LO[ii] != 0.0)
+            model->fully_linear = false;
+    }
     for (int ii = 0; ii < nx; ii++)
         model->ipiv_x[ii] = (int) model->ipiv_x_double[ii];
     for (int ii = 0; ii < nz; ii++)
-- 
2.43.0


From 67958533c090081e9559914ae9a62afc2a6a249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:55 +0000
Subject: [PATCH 02/66] fix: GNSF detection: selecting from scalar expressions
 keeps column shape (memory overwritten for nx==1)

---
 interfaces/acados_template/acados_template/gnsf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 9eda0b2..b8392c5 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -398,8 +398,8 @@ class GnsfModel():
         if is_empty(self.z):
             self.__z = casadi_symbol("z", 0, 0)
 
-        self.__x1 = self.x[self.idx_perm_x[:self.dims.nx1]]
-        self.__x1dot = self.xdot[self.idx_perm_x[:self.dims.nx1]]
+        self.__x1 = self.x[self.idx_perm_x[:self.dims.nx1], 0]
+        self.__x1dot = self.xdot[self.idx_perm_x[:self.dims.nx1], 0]
         if self.dims.nz1 > 0:
             self.__z1 = self.z[self.idx_perm_z[:self.dims.nz1]]
         else:
@@ -1024,7 +1024,7 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
         fii = ca.simplify(fii)
         if not fii.is_zero():
             ind_non_zero = list(set.union(set(ind_non_zero), set([ii])))
-    gnsf["phi_expr"] = gnsf["phi_expr"][ind_non_zero]
+    gnsf["phi_expr"] = gnsf["phi_expr"][ind_non_zero, 0]
 
     # C
     gnsf["C"] = np.zeros((nx + nz, len(ind_non_zero)))
@@ -1651,7 +1651,7 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
         if not all(gnsf["C"][:, ii] == 0):  # if column ~= 0
             I_nonzero.append(ii)
     gnsf["C"] = gnsf["C"][:, I_nonzero]
-    gnsf["phi_expr"] = gnsf["phi_expr"][I_nonzero]
+    gnsf["phi_expr"] = gnsf["phi_expr"][I_nonzero, 0]
 
     gnsf = determine_input_nonlinearity_function(gnsf)
 
-- 
2.43.0


From 6333ea8fdba004a72b5c728f9eb1b4a5acdf0041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:55 +0000
Subject: [PATCH 03/66] fix: GNSF detection: nonlinear feedback part of linear
 output rows uses xdot, check rows of algebraic outputs

---
 interfaces/acados_template/acados_template/gnsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index b8392c5..48647bd 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -676,7 +676,7 @@ def check_reformulation(model, gnsf, print_info):
         except:
             breakpoint()
 
-        if nx2 > 0:  # eval LOS:
+        if nx2 + nz - nz1 > 0:  # eval LOS:
             gnsf_val2 = (
                 A_LO @ x0[I_x2]
                 + B_LO @ u0
@@ -1612,7 +1612,7 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     if gnsf["nx1"] + gnsf["nz1"] == 0:
         lhs_nsf = np.zeros(gnsf["nx"] + gnsf["nz"], 1)
     else:
-        lhs_nsf = E[:, sorted(I_nsf_components)] @ ca.vertcat(x1, z1)
+        lhs_nsf = E[:, sorted(I_nsf_components)] @ ca.vertcat(x1dot, z1)
     n_LO = len(I_LOS_eq)
     B_LO = np.zeros((n_LO, gnsf["nu"]))
     A_LO = np.zeros((gnsf["nx2"] + gnsf["nz2"], gnsf["nx2"]))
-- 
2.43.0


From cf30a4ae980e02a66edbd3a917e7f23bfd79308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:55 +0000
Subject: [PATCH 04/66] fix: GNSF detection: nx==1, nu==0, purely linear and
 partially algebraic models no longer crash

---
 .../acados_template/acados_template/gnsf.py   | 44 +++++++++++--------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 48647bd..c82edbf 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -897,8 +897,8 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
             jac_fii_xi = ca.jacobian(fii, var)
             if jac_fii_xi.is_constant():
                 # jacobian value
-                jac_fii_xi_fun = ca.Function("jac_fii_xi_fun", [x[1]], [jac_fii_xi])
-                # x[1] as input just to have a scalar input and call the function as follows:
+                jac_fii_xi_fun = ca.Function("jac_fii_xi_fun", [x[0]], [jac_fii_xi])
+                # x[0] as input just to have a scalar input and call the function as follows:
                 gnsf["A"][ii, ix] = jac_fii_xi_fun(0).full()
             else:
                 gnsf["A"][ii, ix] = 0
@@ -932,7 +932,7 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
             jac_fii_ui = ca.jacobian(fii, var)
             if jac_fii_ui.is_constant():  # i.e. hessian is structural zero:
                 # jacobian value
-                jac_fii_ui_fun = ca.Function("jac_fii_ui_fun", [x[1]], [jac_fii_ui])
+                jac_fii_ui_fun = ca.Function("jac_fii_ui_fun", [x[0]], [jac_fii_ui])
                 gnsf["B"][ii, iu] = jac_fii_ui_fun(0).full()
             else:
                 gnsf["B"][ii, iu] = 0
@@ -940,7 +940,9 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
                     print(f"phi({ii}) is nonlinear in u(", str(iu), ") = ", varname)
                     print(fii)
                     print("-----------------------------------------------------")
-    f_next = gnsf["phi_expr"] - gnsf["B"] @ u
+    f_next = gnsf["phi_expr"]
+    if nu > 0:
+        f_next = f_next - gnsf["B"] @ u
     f_next = ca.simplify(f_next)
     n_nodes_next = ca.n_nodes(f_next)
 
@@ -967,7 +969,7 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
             jac_fii_ki = ca.jacobian(fii, var)
             if jac_fii_ki.is_constant():
                 # jacobian value
-                jac_fii_ki_fun = ca.Function("jac_fii_ki_fun", [x[1]], [jac_fii_ki])
+                jac_fii_ki_fun = ca.Function("jac_fii_ki_fun", [x[0]], [jac_fii_ki])
                 gnsf["E"][ii, ik] = -jac_fii_ki_fun(0).full()
             else:
                 gnsf["E"][ii, ik] = 0
@@ -995,7 +997,7 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
         fii = gnsf["phi_expr"][ii]
         if fii.is_constant():
             # function value goes into c
-            fii_fun = ca.Function("fii_fun", [x[1]], [fii])
+            fii_fun = ca.Function("fii_fun", [x[0]], [fii])
             gnsf["c"][ii] = fii_fun(0).full()
         else:
             gnsf["c"][ii] = 0
@@ -1108,13 +1110,12 @@ def determine_input_nonlinearity_function(gnsf):
         # u[ii] is not part of uhat
     ## generate gnsf['phi_expr_fun']
     # linear input matrices
+    dummy = ca.SX.sym("dummy_input", 0)
     if is_empty(y):
         gnsf["L_x"] = []
         gnsf["L_xdot"] = []
-        gnsf["L_u"] = []
         gnsf["L_z"] = []
     else:
-        dummy = ca.SX.sym("dummy_input", 0)
         L_x_fun = ca.Function(
             "L_x_fun", [dummy], [ca.jacobian(y, gnsf["x"][range(gnsf["nx1"])])]
         )
@@ -1124,12 +1125,16 @@ def determine_input_nonlinearity_function(gnsf):
         L_z_fun = ca.Function(
             "L_z_fun", [dummy], [ca.jacobian(y, gnsf["z"][range(gnsf["nz1"])])]
         )
-        L_u_fun = ca.Function("L_u_fun", [dummy], [ca.jacobian(uhat, gnsf["u"])])
 
         gnsf["L_x"] = L_x_fun(0).full()
         gnsf["L_xdot"] = L_xdot_fun(0).full()
-        gnsf["L_u"] = L_u_fun(0).full()
         gnsf["L_z"] = L_z_fun(0).full()
+
+    if is_empty(uhat):
+        gnsf["L_u"] = []
+    else:
+        L_u_fun = ca.Function("L_u_fun", [dummy], [ca.jacobian(uhat, gnsf["u"])])
+        gnsf["L_u"] = L_u_fun(0).full()
     gnsf["y"] = y
     gnsf["uhat"] = uhat
 
@@ -1269,10 +1274,13 @@ def reformulate_with_invertible_E_mat(gnsf, model, print_info):
             np.linalg.matrix_rank(gnsf["E"][np.ix_(ind_22, ind_22)]) != gnsf["nz1"]
         )
 
-    if (
-        np.linalg.matrix_rank(gnsf["E"][np.ix_(ind_11, ind_11)]) != gnsf["nx1"]
-        or z_check
-    ):
+    x_check = False
+    if gnsf["nx1"] > 0:
+        x_check = (
+            np.linalg.matrix_rank(gnsf["E"][np.ix_(ind_11, ind_11)]) != gnsf["nx1"]
+        )
+
+    if x_check or z_check:
         # print warning (always)
         print(f"the rank of E11 or E22 is not full after the reformulation")
         print("")
@@ -1575,7 +1583,7 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     if is_empty(I_z1):
         z1 = []
     else:
-        z1 = z(I_z1)
+        z1 = z[list(I_z1)]
     if is_empty(I_z2):
         z2 = []
     else:
@@ -1602,15 +1610,15 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
 
     ## rewrite I_LOS_eq as LOS
     if gnsf["n_out"] == 0:
-        C_phi = np.zeros(gnsf["nx"] + gnsf["nz"], 1)
+        C_phi = np.zeros((gnsf["nx"] + gnsf["nz"], 1))
     else:
         C_phi = C @ phi_old
     if gnsf["nx1"] == 0:
-        Ax1 = np.zeros(gnsf["nx"] + gnsf["nz"], 1)
+        Ax1 = np.zeros((gnsf["nx"] + gnsf["nz"], 1))
     else:
         Ax1 = A[:, sorted(I_x1)] @ x1
     if gnsf["nx1"] + gnsf["nz1"] == 0:
-        lhs_nsf = np.zeros(gnsf["nx"] + gnsf["nz"], 1)
+        lhs_nsf = np.zeros((gnsf["nx"] + gnsf["nz"], 1))
     else:
         lhs_nsf = E[:, sorted(I_nsf_components)] @ ca.vertcat(x1dot, z1)
     n_LO = len(I_LOS_eq)
-- 
2.43.0


From d283e342465398a124dfa3ad5384f0ca4f442843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:44 +0000
Subject: [PATCH 05/66] fix: initial-node convex-over-nonlinear constraint uses
 its own inner dimension

---
 .../acados_template/c_templates_tera/acados_solver.in.c        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index bcc0b35..515ba54 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -327,6 +327,9 @@ static ocp_nlp_dims* {{ name }}_acados_create_setup_dimensions({{ name }}_solver
     nsh[0] = NSH0;
     nsphi[0] = NSPHI0;
     nphi[0] = NPHI0;
+    {% if solver_options.N_horizon > 0 %}
+    nr[0] = {{ dims.nr_0 }};
+    {% endif %}
 
 
     // terminal - common
-- 
2.43.0


From 48c8b3653159181cb529dc07309baf5c40281679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:21 +0000
Subject: [PATCH 06/66] fix: set numerical-Hessian option of stage 0 according
 to the stage-0 cost type

With an EXTERNAL path cost and a least-squares initial cost, the generated
solver terminated the process on creation (and the reverse combination never
set the option at stage 0).
---
 .../acados_template/c_templates_tera/acados_solver.in.c      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 515ba54..24d2be3 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2935,8 +2935,11 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
 {% endif %}
 
     int ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
+{%- if cost.cost_type_0 == "EXTERNAL" and solver_options.N_horizon > 0 %}
+    ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, 0, "cost_numerical_hessian", &ext_cost_num_hess);
+{%- endif %}
 {%- if cost.cost_type == "EXTERNAL" and solver_options.N_horizon > 0 %}
-    for (int i = 0; i < N; i++)
+    for (int i = 1; i < N; i++)
     {
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "cost_numerical_hessian", &ext_cost_num_hess);
     }
-- 
2.43.0


From 20cfb7d3c54d3cb114ae982f8fbb8bd7d6f72267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:36 +0000
Subject: [PATCH 07/66] fix: transposed Jacobian of h w.r.t. algebraic
 variables in code generation

The solver expects the nz x nh transposed Jacobian; the nh x nz matrix was
exported, so h(x,u,z) was linearized wrongly unless nz and nh are both one.
---
 .../acados_template/casadi_function_generation.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/casadi_function_generation.py b/interfaces/acados_template/acados_template/casadi_function_generation.py
index a8093b0..c359a91 100644
--- a/interfaces/acados_template/acados_template/casadi_function_generation.py
+++ b/interfaces/acados_template/acados_template/casadi_function_generation.py
@@ -780,7 +780,7 @@ def generate_c_code_constraint(context: GenerateContext, model: AcadosModel, con
             fun_name = model.name + '_constr_h_fun_jac_uxt_zt'
 
         jac_ux_t = ca.transpose(ca.jacobian(con_h_expr, ca.vertcat(u,x)))
-        jac_z_t = ca.jacobian(con_h_expr, z)
+        jac_z_t = ca.transpose(ca.jacobian(con_h_expr, z))
         context.add_function_definition(fun_name, [x, u, z, p], \
                 [con_h_expr, jac_ux_t, jac_z_t], constraints_dir, 'constr')
 
-- 
2.43.0


From 46de5400c12ad782278ec80c78e1ee1aa0d9a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:36 +0000
Subject: [PATCH 08/66] fix: numerical-Hessian option of stage 0 in multi-phase
 solvers follows the stage-0 cost type

---
 .../c_templates_tera/acados_multi_solver.in.c             | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 39e9d60..22de812 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2716,7 +2716,7 @@ ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "allow_direction_mode_switch_to_no
 
 
     /* Stage varying options */
-    int ext_cost_num_hess;
+    int ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
     bool output_z_val = true;
     bool sens_algebraic_val = true;
     sim_collocation_type collocation_type;
@@ -2788,9 +2788,13 @@ ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "allow_direction_mode_switch_to_no
 {%- endif %}
 {%- endif %}{# mocp_opts.integrator_type[jj] != "DISCRETE" #}
 
+{%- if jj == 0 and cost[0].cost_type_0 == "EXTERNAL" %}
+    ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
+    ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, 0, "cost_numerical_hessian", &ext_cost_num_hess);
+{%- endif %}
 {%- if cost[jj].cost_type == "EXTERNAL" %}
     ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
-    for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
+    for (int i = {{ cost_start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
     {
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "cost_numerical_hessian", &ext_cost_num_hess);
     }
-- 
2.43.0


From c184094368f6ff24f2cbe86c01aa1089810c41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 09/66] fix: constraint Jacobians with algebraic variables: add
 z contribution to the columns of h/phi, not to rows

The contribution dz/d(u,x) * dh/dz was added at row offset ng instead of
column offset ng of DCt, i.e. to the general linear constraints (and past the
matrix) when both general and nonlinear constraints are present.
---
 acados/ocp_nlp/ocp_nlp_constraints_bgh.c | 4 ++--
 acados/ocp_nlp/ocp_nlp_constraints_bgp.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
index ab948bd..c1127ca 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
@@ -1400,7 +1400,7 @@ void ocp_nlp_constraints_bgh_update_qp_matrices(void *config_, void *dims_, void
             blasfeo_dgemm_nn(nu+nx, nh, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nh, 0, 0, 0.0,
                              &work->tmp_nv_nh, 0, 0, &work->tmp_nv_nh, 0, 0);
             // update DCt
-            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, ng, 0);
+            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, 0, ng);
         }
         else
         {
@@ -1436,7 +1436,7 @@ void ocp_nlp_constraints_bgh_update_qp_matrices(void *config_, void *dims_, void
             blasfeo_dgemm_nn(nu+nx, nh, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nh, 0, 0, 0.0,
                              &work->tmp_nv_nh, 0, 0, &work->tmp_nv_nh, 0, 0);
             // update DCt
-            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, ng, 0);
+            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, 0, ng);
         }
     }
 
diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
index fec1c56..2838ac5 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
@@ -1293,7 +1293,7 @@ void ocp_nlp_constraints_bgp_update_qp_matrices(void *config_, void *dims_, void
 
         // update DCt
         blasfeo_dgemm_nn(nu+nx, nphi, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nphi, 0, 0, 0.0, &work->tmp_nv_nphi, 0, 0, &work->tmp_nv_nphi, 0, 0);
-        blasfeo_dgead(nu+nx, nphi, 1.0, &work->tmp_nv_nphi, 0, 0, memory->DCt, ng, 0);
+        blasfeo_dgead(nu+nx, nphi, 1.0, &work->tmp_nv_nphi, 0, 0, memory->DCt, 0, ng);
         // update memory->fun
         blasfeo_dgemv_t(nu+nx, nphi, -1.0, &work->tmp_nv_nphi, 0, 0, memory->ux, 0, 1.0, &memory->fun, 0, &memory->fun, 0);
     }
-- 
2.43.0


From dad1ffe0d732d97ed3bca6b3ab3b1e545606852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 10/66] fix: external cost Hessian with algebraic variables:
 cross terms

syr2k expects an (nu+nx) x nz second factor but was given the nz x (nu+nx)
matrix d2l/dz d(u,x), so entries outside that matrix were read.
---
 acados/ocp_nlp/ocp_nlp_cost_external.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_external.c b/acados/ocp_nlp/ocp_nlp_cost_external.c
index e1b3374..1b3f223 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_external.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_external.c
@@ -815,8 +815,9 @@ void ocp_nlp_cost_external_update_qp_matrices(void *config_, void *dims_, void *
             // H = d2l_dxu2 + dz_dux.T * d2l_dz2 * dz_dux + d2l_dux_dz * dz_dux + (d2l_dux_dz * dz_dux).T
             // the term d2z_dux2 is dropped!
 
-            // compute and add cross terms (NOTE: only lower triangular is computed)
-            blasfeo_dsyr2k_ln(nu+nx, nz, model->scaling, memory->dzdux_tran, 0, 0, &work->tmp_nz_nunx, 0, 0, 1., memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
+            // compute and add cross terms
+            blasfeo_dgemm_nn(nu+nx, nu+nx, nz, model->scaling, memory->dzdux_tran, 0, 0, &work->tmp_nz_nunx, 0, 0, 1., memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
+            blasfeo_dgemm_tt(nu+nx, nu+nx, nz, model->scaling, &work->tmp_nz_nunx, 0, 0, memory->dzdux_tran, 0, 0, 1., memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
 
             // hessian contribution from z
             blasfeo_dgemm_nt(nz, nu+nx, nz, 1., &work->tmp_nz_nz, 0, 0, memory->dzdux_tran, 0, 0, 0.0, &work->tmp_nz_nunx, 0, 0, &work->tmp_nz_nunx, 0, 0);
-- 
2.43.0


From 4fbd8a641a54ff521ae88893906dbab4784931a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:45 +0000
Subject: [PATCH 11/66] fix: cost value after changing the weight W uses the
 new weight

get_cost() evaluated the least-squares costs with the factor of the weight
used in the last linearization.
---
 acados/ocp_nlp/ocp_nlp_cost_ls.c  | 2 ++
 acados/ocp_nlp/ocp_nlp_cost_nls.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_ls.c b/acados/ocp_nlp/ocp_nlp_cost_ls.c
index e2b5442..2a520af 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_ls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_ls.c
@@ -1023,6 +1023,8 @@ void ocp_nlp_cost_ls_compute_fun(void *config_, void *dims_, void *model_, void
     ocp_nlp_cost_ls_workspace *work = work_;
 
     ocp_nlp_cost_ls_cast_workspace(config_, dims, opts_, work_);
+    // the weight might have been changed since the last linearization
+    ocp_nlp_cost_ls_update_W_factorization(config_, dims, model_, opts_, memory_, work_);
     int nx = dims->nx;
     int nu = dims->nu;
     int nz = dims->nz;
diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index 200d0bd..2477592 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -1060,6 +1060,8 @@ void ocp_nlp_cost_nls_compute_fun(void *config_, void *dims_, void *model_,
     struct blasfeo_dvec *ux = memory->ux;
 
     ocp_nlp_cost_nls_cast_workspace(config_, dims, opts_, work_);
+    // the weight might have been changed since the last linearization
+    ocp_nlp_cost_nls_update_W_factorization(config_, dims, model_, opts_, memory_, work_);
 
     int nx = dims->nx;
     int nu = dims->nu;
-- 
2.43.0


From 071653d43f213f7ccec213a89423809363720d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:45 +0000
Subject: [PATCH 12/66] fix: complementarity residual with tau_min: upper
 multipliers of equalities are at offset ni-ns

---
 acados/ocp_nlp/ocp_nlp_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index d708b51..cba6fbf 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -3686,6 +3686,7 @@ void ocp_nlp_res_compute(ocp_nlp_dims *dims, ocp_nlp_opts *opts, ocp_nlp_in *in,
     int *nx = dims->nx;
     int *nu = dims->nu;
     int *ni = dims->ni;
+    int *ns = dims->ns;
 
     double tmp_res;
     double tmp;
@@ -3758,7 +3759,7 @@ void ocp_nlp_res_compute(ocp_nlp_dims *dims, ocp_nlp_opts *opts, ocp_nlp_in *in,
             for (int j = 0; j < ne; j++)
             {
                 BLASFEO_DVECEL(res->res_comp+i, mem->qp_in->idxe[i][j]) = 0.0;
-                BLASFEO_DVECEL(res->res_comp+i, mem->qp_in->idxe[i][j]+ni[i]) = 0.0;
+                BLASFEO_DVECEL(res->res_comp+i, mem->qp_in->idxe[i][j]+ni[i]-ns[i]) = 0.0;
             }
             // zero out masked constraints
             blasfeo_dvecmul(2 * ni[i], in->dmask+i, 0, res->res_comp+i, 0, res->res_comp+i, 0);
-- 
2.43.0


From bde7da9674288df279e8be57a51643f86798a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:45 +0000
Subject: [PATCH 13/66] fix: stationarity residual of convex-over-nonlinear
 constraints with idxs_rev includes slack bound multipliers

---
 acados/ocp_nlp/ocp_nlp_constraints_bgp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
index 2838ac5..bdb1c96 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
@@ -1341,9 +1341,9 @@ void ocp_nlp_constraints_bgp_update_qp_matrices(void *config_, void *dims_, void
         {
             blasfeo_dvecex_sp(ns, 1.0, model->idxs, memory->lam, 0, &memory->adj, nu + nx);
             blasfeo_dvecex_sp(ns, 1.0, model->idxs, memory->lam, nb+ng+nphi, &memory->adj, nu+nx+ns);
-            blasfeo_daxpy(2 * ns, 1.0, memory->lam, 2 * nb + 2 * ng + 2 * nphi, &memory->adj, nu + nx,
-                        &memory->adj, nu + nx);
         }
+        blasfeo_daxpy(2 * ns, 1.0, memory->lam, 2 * nb + 2 * ng + 2 * nphi, &memory->adj, nu + nx,
+                    &memory->adj, nu + nx);
     }
 
     if (opts->compute_hess)
-- 
2.43.0


From e63d7715b0b07f60c1be85fb41da17c00d2281a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:57 +0000
Subject: [PATCH 14/66] fix: workspace dimensions of the output Jacobian w.r.t.
 z in (non)linear least squares cost

---
 acados/ocp_nlp/ocp_nlp_cost_ls.c  | 2 +-
 acados/ocp_nlp/ocp_nlp_cost_nls.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_ls.c b/acados/ocp_nlp/ocp_nlp_cost_ls.c
index 2a520af..4edb52b 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_ls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_ls.c
@@ -173,7 +173,7 @@ acados_size_t ocp_nlp_cost_ls_model_calculate_size(void *config_, void *dims_)
 
     size += 1 * blasfeo_memsize_dmat(ny, ny);           // W
     size += 1 * blasfeo_memsize_dmat(nu + nx, ny);      // Cyt
-    size += 1 * blasfeo_memsize_dmat(nz, ny);           // Vz
+    size += 1 * blasfeo_memsize_dmat(ny, nz);           // Vz
     size += 1 * blasfeo_memsize_dvec(ny);               // y_ref
     size += 2 * blasfeo_memsize_dvec(2 * ns);           // Z, z
     make_int_multiple_of(8, &size);
diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index 2477592..6328c3a 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -711,7 +711,7 @@ acados_size_t ocp_nlp_cost_nls_workspace_calculate_size(void *config_, void *dim
     size += 1 * blasfeo_memsize_dmat(nu + nx, ny);       // tmp_nv_ny
     size += 1 * blasfeo_memsize_dmat(nu + nx, nu + nx);  // tmp_nv_nv
     size += 1 * blasfeo_memsize_dmat(nu + nx, ny);  // Cyt_tilde
-    size += 1 * blasfeo_memsize_dmat(nz, ny);           // Vz
+    size += 1 * blasfeo_memsize_dmat(ny, nz);           // Vz
     size += 1 * blasfeo_memsize_dvec(ny);                // tmp_ny
     size += 1 * blasfeo_memsize_dvec(2*ns);              // tmp_2ns
     size += 1 * blasfeo_memsize_dvec(nz);           // tmp_nz
@@ -749,7 +749,7 @@ static void ocp_nlp_cost_nls_cast_workspace(void *config_, void *dims_, void *op
     assign_and_advance_blasfeo_dmat_mem(nu + nx, nu + nx, &work->tmp_nv_nv, &c_ptr);
 
     // Vz
-    assign_and_advance_blasfeo_dmat_mem(nz, ny, &work->Vz, &c_ptr);
+    assign_and_advance_blasfeo_dmat_mem(ny, nz, &work->Vz, &c_ptr);
 
     // Cyt_tilde
     assign_and_advance_blasfeo_dmat_mem(nu + nx, ny, &work->Cyt_tilde, &c_ptr);
-- 
2.43.0


From 47bb3c1e498aef2fd347ac32ce17c4afa41aa11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:08 +0000
Subject: [PATCH 15/66] fix: complementarity residual with tau_min: stages
 without inequalities contribute zero

---
 acados/ocp_nlp/ocp_nlp_common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index cba6fbf..9695d73 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -3768,6 +3768,10 @@ void ocp_nlp_res_compute(ocp_nlp_dims *dims, ocp_nlp_opts *opts, ocp_nlp_in *in,
             blasfeo_dvecnrm_inf(2 * ni[i], res->res_comp + i, 0, &tmp_res);
             blasfeo_dvecse(1, tmp_res, &res->tmp, i);
             }
+            else
+            {
+                blasfeo_dvecse(1, 0.0, &res->tmp, i);
+            }
         }
     }
     else
-- 
2.43.0


From 69730e6a6cbbf1e8c3c7ebd0e61a85b6bfee01f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:54 +0000
Subject: [PATCH 16/66] fix: DDP solver does not report success while the
 initial state condition is violated

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index e9349b8..4c47d82 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -449,10 +449,10 @@ static bool check_termination(int ddp_iter, ocp_nlp_res *nlp_res, ocp_nlp_ddp_me
         return true;
     }
 
-    // We do not need to check for the complementarity condition and for the
-    // inequalities since we have an unconstrainted OCP
-    if (nlp_res->inf_norm_res_eq < nlp_opts->tol_eq)
-    { // Check that iterate must be dynamically feasible
+    // We do not need to check for the complementarity condition since we have an unconstrainted OCP,
+    // the only inequality is the initial state condition
+    if (nlp_res->inf_norm_res_eq < nlp_opts->tol_eq && nlp_res->inf_norm_res_ineq < nlp_opts->tol_ineq)
+    { // Check that iterate must be dynamically feasible and starts at the initial state
         if (nlp_res->inf_norm_res_stat < nlp_opts->tol_stat)
         {// Check Stationarity
             nlp_mem->status = ACADOS_SUCCESS;
@@ -651,7 +651,7 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
         }
 
         // Check if initial guess was infeasible
-        if ((infeasible_initial_guess == true) && (nlp_res->inf_norm_res_eq > nlp_opts->tol_eq))
+        if ((infeasible_initial_guess == true) && (nlp_res->inf_norm_res_eq > nlp_opts->tol_eq || nlp_res->inf_norm_res_ineq > nlp_opts->tol_ineq))
         {
             if (nlp_opts->print_level > 0)
             {
-- 
2.43.0


From 4cab1f39d2dab50722c734f0078c815b719040b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:04 +0000
Subject: [PATCH 17/66] fix: DDP: log external QP residuals from the allocated
 workspace

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 4c47d82..0c890bc 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -742,7 +742,7 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
         if (nlp_opts->ext_qp_res)
         {
             if (ddp_iter+1 < mem->stat_m)
-                ocp_qp_res_compute_nrm_inf(work->qp_res, mem->stat+(mem->stat_n*(ddp_iter+1)+7));
+                ocp_qp_res_compute_nrm_inf(nlp_work->qp_res, mem->stat+(mem->stat_n*(ddp_iter+1)+7));
         }
 
         // exit conditions on QP status
-- 
2.43.0


From ae846d0820f75213df5625a1f8190fe83be99081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:52 +0000
Subject: [PATCH 18/66] fix: IRK cost propagation: nonlinear least squares cost
 with non-diagonal weight uses the transposed Cholesky factor

---
 acados/sim/sim_irk_integrator.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acados/sim/sim_irk_integrator.c b/acados/sim/sim_irk_integrator.c
index 91c1794..5ba4616 100644
--- a/acados/sim/sim_irk_integrator.c
+++ b/acados/sim/sim_irk_integrator.c
@@ -1773,8 +1773,8 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                         blasfeo_dtrmm_rlnn(nu+nx, ny, 1.0, mem->W_chol, 0, 0, tmp_nux_ny, 0, 0,
                                         tmp_nux_ny2, 0, 0);
 
-                        // tmp_ny = W_chol * nls_res
-                        blasfeo_dtrmv_lnn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
+                        // tmp_ny = W_chol^T * nls_res
+                        blasfeo_dtrmv_ltn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
                     }
 
                     // cost_grad += b * tmp_ny^T * tmp_ny_nux = b * tmp_ny_nux^T * tmp_ny
@@ -1974,8 +1974,8 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                     blasfeo_dvecmul(ny, mem->W_chol_diag, 0, nls_res, 0, tmp_ny, 0);
                 }
                 else {
-                    // tmp_ny = W_chol * nls_res
-                    blasfeo_dtrmv_lnn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
+                    // tmp_ny = W_chol^T * nls_res
+                    blasfeo_dtrmv_ltn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
                 }
 
                 // cost function value
-- 
2.43.0


From e65f9e3d65863175ab00e309c7f26a4c96ad0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:03 +0000
Subject: [PATCH 19/66] fix: integrator cost: the slack penalty enters the cost
 value with the cost scaling, as in the gradient

---
 acados/ocp_nlp/ocp_nlp_cost_conl.c | 6 ++++--
 acados/ocp_nlp/ocp_nlp_cost_nls.c  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_conl.c b/acados/ocp_nlp/ocp_nlp_cost_conl.c
index b805f3d..ff5fb3d 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_conl.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_conl.c
@@ -847,7 +847,8 @@ void ocp_nlp_cost_conl_update_qp_matrices(void *config_, void *dims_, void *mode
     blasfeo_dveccpsc(2*ns, 2.0, &model->z, 0, &work->tmp_2ns, 0);
     blasfeo_dvecmulacc(2*ns, &model->Z, 0, memory->ux, nu+nx, &work->tmp_2ns, 0);
     // fun += .5 * (tmp_2ns .* slack)
-    memory->fun += 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, memory->ux, nu+nx);
+    // NOTE: fun of the integrator cost is scaled already
+    memory->fun += (opts->integrator_cost ? model->scaling : 1.0) * 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, memory->ux, nu+nx);
 
     // scale
     if (model->scaling!=1.0)
@@ -1037,7 +1038,8 @@ void ocp_nlp_cost_conl_compute_fun(void *config_, void *dims_, void *model_,
     // slack update function value
     blasfeo_dveccpsc(2*ns, 2.0, &model->z, 0, &work->tmp_2ns, 0);
     blasfeo_dvecmulacc(2*ns, &model->Z, 0, ux, nu+nx, &work->tmp_2ns, 0);
-    memory->fun += 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, ux, nu+nx);
+    // NOTE: fun of the integrator cost is scaled already
+    memory->fun += (opts->integrator_cost ? model->scaling : 1.0) * 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, ux, nu+nx);
 
     // scale
     if (model->scaling!=1.0 && opts->integrator_cost == 0)
diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index 6328c3a..305ded8 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -1007,7 +1007,8 @@ void ocp_nlp_cost_nls_update_qp_matrices(void *config_, void *dims_, void *model
     blasfeo_dveccpsc(2*ns, 2.0, &model->z, 0, &work->tmp_2ns, 0);
     blasfeo_dvecmulacc(2*ns, &model->Z, 0, memory->ux, nu+nx, &work->tmp_2ns, 0);
     // fun += .5 * (tmp_2ns .* slack)
-    memory->fun += 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, memory->ux, nu+nx);
+    // NOTE: fun of the integrator cost is scaled already
+    memory->fun += (opts->integrator_cost ? model->scaling : 1.0) * 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, memory->ux, nu+nx);
 
     // scale
     if (model->scaling!=1.0)
@@ -1128,7 +1129,8 @@ void ocp_nlp_cost_nls_compute_fun(void *config_, void *dims_, void *model_,
     // slack update function value
     blasfeo_dveccpsc(2*ns, 2.0, &model->z, 0, &work->tmp_2ns, 0);
     blasfeo_dvecmulacc(2*ns, &model->Z, 0, ux, nu+nx, &work->tmp_2ns, 0);
-    memory->fun += 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, ux, nu+nx);
+    // NOTE: fun of the integrator cost is scaled already
+    memory->fun += (opts->integrator_cost ? model->scaling : 1.0) * 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, ux, nu+nx);
 
     // scale
     if (model->scaling!=1.0 && opts->integrator_cost == 0)
-- 
2.43.0


From 3c38394b882b1bc04f6f7f30a6e1e7676f0c0680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:13 +0000
Subject: [PATCH 20/66] fix: cost value of integrator costs after changing the
 weight W uses the new weight

---
 acados/ocp_nlp/ocp_nlp_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index 9695d73..335a67e 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -3882,6 +3882,9 @@ void ocp_nlp_cost_compute(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_nlp_in
 
             if (cost_integration)
             {
+                // the integrator uses the factorization of the weight, which might have been changed
+                config->cost[i]->precompute(config->cost[i], dims->cost[i], in->cost[i],
+                        opts->cost[i], mem->cost[i], work->cost[i]);
                 config->dynamics[i]->compute_fun(config->dynamics[i], dims->dynamics[i],
                         in->dynamics[i], opts->dynamics[i], mem->dynamics[i], work->dynamics[i]);
             }
-- 
2.43.0


From 3b7c5316a0a75a282937076981e3da55c05df9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:45 +0000
Subject: [PATCH 21/66] fix: GNSF reformulation check: tolerance above rounding
 errors, raise an error instead of opening a debugger

---
 interfaces/acados_template/acados_template/gnsf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index c82edbf..1201bc5 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -587,7 +587,7 @@ def check_reformulation(model, gnsf, print_info):
     # if for all points the relative error is <= TOL, the function will return::
     # 1, otherwise it will give an error.
 
-    TOL = 1e-14
+    TOL = 1e-10 # well above the rounding errors of the reformulation
     num_eval = 10
 
     # get dimensions
@@ -696,9 +696,7 @@ def check_reformulation(model, gnsf, print_info):
             # T = table(f_impl_val, gnsf_val, abs_error)
             # print(T)
             print("abs_error:", abs_error)
-            #         error('transcription failed rel_error > TOL')
-            #         check = 0
-            breakpoint()
+            raise Exception(f"GNSF transcription failed: relative error {rel_error} > {TOL}.")
 
     if print_info:
         print(" ")
-- 
2.43.0


From 926617153ed42e5cadee4157d37b359058177ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:57 +0000
Subject: [PATCH 22/66] fix: AcadosOcpQp.check_licq: bound indices refer to [u;
 x], stage-varying state dimension

---
 .../acados_template/acados_ocp_qp.py             | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp.py b/interfaces/acados_template/acados_template/acados_ocp_qp.py
index 7bd1519..715306b 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp.py
@@ -525,18 +525,20 @@ class AcadosOcpQp:
             nbx = self.dims.nbx[i]
             nbu = self.dims.nbu[i]
 
-            # Collect active constraint gradients, constraint matrix should be nx+nu+nx at each stage
+            nx_next = self.dims.nx[i+1]
+
+            # Collect active constraint gradients, constraint matrix should be nx+nu+nx_next at each stage
             A_active = []
-            row_len = nx + nu + nx
+            row_len = nx + nu + nx_next
 
             # Dynamic constraints are always active with [A, B, -I] structure
             if i < horizon:
-                A_dyn = np.hstack([self.A[i], self.B[i], -np.eye(nx)])
+                A_dyn = np.hstack([self.A[i], self.B[i], -np.eye(nx_next)])
                 A_active.append(A_dyn)
 
             # Box constraints on states
             for j in range(nbx):
-                idx = self.idxb[i][j]
+                idx = self.idxb[i][nbu + j] - nu  # idxb refers to [u; x], u bounds come first
                 if np.isclose(iterate.x[i][idx], self.lbx[i][j]):
                     grad = np.zeros(row_len)
                     grad[idx] = 1.0
@@ -549,7 +551,7 @@ class AcadosOcpQp:
 
             # Box constraints on controls
             for j in range(nbu):
-                idx = j  # assuming inputs are indexed from 0 to nbu-1
+                idx = self.idxb[i][j]
                 if np.isclose(iterate.u[i][idx], self.lbu[i][j]):
                     grad = np.zeros(row_len)
                     grad[nx + idx] = 1.0
@@ -564,11 +566,11 @@ class AcadosOcpQp:
             for j in range(ng):
                 value = self.C[i]@iterate.x[i] + self.D[i]@iterate.u[i]
                 if np.isclose(value[j], self.lg[i][j]):
-                    grad = np.hstack([self.C[i][j, :], self.D[i][j, :], np.zeros(nx)])
+                    grad = np.hstack([self.C[i][j, :], self.D[i][j, :], np.zeros(nx_next)])
                     A_active.append(grad)
 
                 elif np.isclose(value[j], self.ug[i][j]):
-                    grad = -np.hstack([self.C[i][j, :], self.D[i][j, :], np.zeros(nx)])
+                    grad = -np.hstack([self.C[i][j, :], self.D[i][j, :], np.zeros(nx_next)])
                     A_active.append(grad)
 
             A_active_matrix = np.vstack(A_active)
-- 
2.43.0


From 0344c9c7bb7ea39714b79b40926c7cdb15d39887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:38 +0000
Subject: [PATCH 23/66] fix: AcadosCasadiOcpQp: soft bounds act on the
 variables selected by idxb, slacks may be shared

---
 .../acados_template/acados_casadi_ocp_qp.py       | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
index 7a4b36e..2972e86 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
@@ -146,7 +146,8 @@ class AcadosCasadiOcpQp:
             nbu = dims.nbu[i]
             nbx = dims.nbx[i]
 
-            idxs_rev = qp.idxs_rev[i]
+            idxs_rev = qp.idxs_rev[i].astype(int)
+            idxb = qp.idxb[i].astype(int)
 
             xi = x_nodes_list[i]
             ui = u_nodes_list[i]
@@ -170,9 +171,9 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsbu_rev,
             )
             if s_idx.size > 0:
-                expr = ui[soft_idx]
-                sl_k = sli[s_idx]
-                su_k = sui[s_idx]
+                expr = ca.vertcat(*[ui[int(j)] for j in idxb[:nbu][soft_idx]])
+                sl_k = ca.vertcat(*[sli[int(j)] for j in s_idx])
+                su_k = ca.vertcat(*[sui[int(j)] for j in s_idx])
                 self._append_constraints(expr+sl_k, lbu_soft, np.full(lbu_soft.shape, np.inf), g_list, lbg_list, ubg_list, i, type='bu_soft_lower')
                 self._append_constraints(expr-su_k, np.full(ubu_soft.shape, -np.inf), ubu_soft, g_list, lbg_list, ubg_list, i, type='bu_soft_upper')
 
@@ -186,9 +187,9 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsxb_rev,
             )
             if s_idx.size > 0:
-                expr = xi[soft_idx]
-                sl_k = sli[s_idx]
-                su_k = sui[s_idx]
+                expr = ca.vertcat(*[xi[int(j)] for j in idxb[nbu:nb][soft_idx] - nu])
+                sl_k = ca.vertcat(*[sli[int(j)] for j in s_idx])
+                su_k = ca.vertcat(*[sui[int(j)] for j in s_idx])
                 self._append_constraints(expr+sl_k, lbx_soft, np.full(lbx_soft.shape, np.inf), g_list, lbg_list, ubg_list, i, type='bx_soft_lower')
                 self._append_constraints(expr-su_k, np.full(ubx_soft.shape, -np.inf), ubx_soft, g_list, lbg_list, ubg_list, i, type='bx_soft_upper')
 
-- 
2.43.0


From 8a65697739d0afbf111f3f73de8a0f42b7f82495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:56 +0000
Subject: [PATCH 24/66] fix: AcadosCasadiOcpQpSolver: multipliers of bounds
 follow idxb and mixed hard/soft bounds, sign of warm start

---
 .../acados_template/acados_casadi_ocp_qp.py   |  6 +-
 .../acados_casadi_ocp_qp_solver.py            | 63 ++++++++++---------
 2 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
index 2972e86..aaba715 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
@@ -342,7 +342,8 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsx_rev,
                 bound_to_var_indices=x_state_indices,
             )
-            self._index_map['lam_bx_in_lam_w'].append(list(range(self.offset_lam, self.offset_lam + nbx)))
+            # multipliers of hard bounds only, multipliers of soft bounds are in lam_g
+            self._index_map['lam_bx_in_lam_w'].append([self.offset_lam + int(j) for j in x_state_indices[idxsx_rev < 0]])
             self.offset_lam += nx
 
         elif _field == 'u':
@@ -364,7 +365,8 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsu_rev,
                 bound_to_var_indices=u_state_indices,
             )
-            self._index_map['lam_bu_in_lam_w'].append(list(range(self.offset_lam, self.offset_lam + nbu)))
+            # multipliers of hard bounds only, multipliers of soft bounds are in lam_g
+            self._index_map['lam_bu_in_lam_w'].append([self.offset_lam + int(j) for j in u_state_indices[idxsu_rev < 0]])
             self.offset_lam += nu
 
         elif _field == 'sl':
diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
index 25d74a8..83571b6 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
@@ -179,6 +179,29 @@ class AcadosCasadiOcpQpSolver:
         else:
             raise NotImplementedError(f"get(): field '{field}' not implemented.")
 
+    def _get_idx_hard_and_soft_bounds(self, stage: int, field: str):
+        """
+        Positions of the hard and soft bounds within the u bounds ('bu') or x bounds ('bx').
+        """
+        nbu, nbx = self.acados_ocp_qp.dims.nbu[stage], self.acados_ocp_qp.dims.nbx[stage]
+        idxs_rev = self.acados_ocp_qp.idxs_rev[stage]
+        idxs_rev = idxs_rev[:nbu] if field == 'bu' else idxs_rev[nbu:nbu+nbx]
+        return np.where(idxs_rev < 0)[0], np.where(idxs_rev >= 0)[0]
+
+    def _get_lam_bounds(self, stage: int, field: str):
+        """
+        Return multipliers of lower and upper bounds on u ('bu') or x ('bx').
+        """
+        hard, soft = self._get_idx_hard_and_soft_bounds(stage, field)
+        lam_lower = np.zeros(len(hard) + len(soft))
+        lam_upper = np.zeros(len(hard) + len(soft))
+        lam_hard = self.qp_sol_lam_w[self.index_map[f'lam_{field}_in_lam_w'][stage]]
+        lam_lower[hard] = np.maximum(0.0, -lam_hard)
+        lam_upper[hard] = np.maximum(0.0, lam_hard)
+        lam_lower[soft] = -self.qp_sol_lam_g[self.index_map[f'lam_{field}_sl_in_lam_g'][stage]]
+        lam_upper[soft] = self.qp_sol_lam_g[self.index_map[f'lam_{field}_su_in_lam_g'][stage]]
+        return lam_lower, lam_upper
+
     def _get_lam(self, stage: int) -> np.ndarray:
         """
         Return multipliers in acados convention:
@@ -188,22 +211,9 @@ class AcadosCasadiOcpQpSolver:
         lam_w = self.qp_sol_lam_w
         lam_g = self.qp_sol_lam_g
 
-        # --- hard/soft u-bound multipliers ---
-        if self.index_map['lam_bu_sl_in_lam_g'][stage] == []:
-            bu_lam = lam_w[self.index_map['lam_bu_in_lam_w'][stage]]
-            lbu_lam = np.maximum(0.0, -bu_lam)
-            ubu_lam = np.maximum(0.0,  bu_lam)
-        else:
-            lbu_lam = -lam_g[self.index_map['lam_bu_sl_in_lam_g'][stage]]
-            ubu_lam = lam_g[self.index_map['lam_bu_su_in_lam_g'][stage]]
-        # --- hard/soft x-bound multipliers ---
-        if self.index_map['lam_bx_sl_in_lam_g'][stage] == []:
-            bx_lam = lam_w[self.index_map['lam_bx_in_lam_w'][stage]]
-            lbx_lam = np.maximum(0.0, -bx_lam)
-            ubx_lam = np.maximum(0.0, bx_lam)
-        else:
-            lbx_lam = -lam_g[self.index_map['lam_bx_sl_in_lam_g'][stage]]
-            ubx_lam = lam_g[self.index_map['lam_bx_su_in_lam_g'][stage]]
+        # --- hard/soft bound multipliers ---
+        lbu_lam, ubu_lam = self._get_lam_bounds(stage, 'bu')
+        lbx_lam, ubx_lam = self._get_lam_bounds(stage, 'bx')
         # --- hard and soft constraint multipliers ---
         g_lam = lam_g[self.index_map['lam_g_in_lam_g'][stage]]
         if self.index_map['lam_g_sl_in_lam_g'][stage]:
@@ -305,18 +315,12 @@ class AcadosCasadiOcpQpSolver:
         ug_lam_hard = ubg_lam[gnl_indices]
         ug_lam_soft = ubg_lam[gnl_sl_indices]
 
-        if stage < self.acados_ocp_qp.N:
-            if self.index_map['lam_bu_sl_in_lam_g'][stage] == []:
-                self.lam_x0[self.index_map['lam_bu_in_lam_w'][stage]] = ubu_lam - lbu_lam
-            else:
-                self.lam_g0[self.index_map['lam_bu_sl_in_lam_g'][stage]] = -lbu_lam
-                self.lam_g0[self.index_map['lam_bu_su_in_lam_g'][stage]] = ubu_lam
-        if self.index_map['lam_bx_sl_in_lam_g'][stage] == []:
-            self.lam_x0[self.index_map['lam_bx_in_lam_w'][stage]] = ubx_lam - lbx_lam
-        else:
-            self.lam_g0[self.index_map['lam_bx_sl_in_lam_g'][stage]] = -lbx_lam
-            self.lam_g0[self.index_map['lam_bx_su_in_lam_g'][stage]] = ubx_lam
-        self.lam_g0[self.index_map['lam_g_in_lam_g'][stage]] = lg_lam_hard - ug_lam_hard
+        for field, lam_lower, lam_upper in [('bu', lbu_lam, ubu_lam), ('bx', lbx_lam, ubx_lam)]:
+            hard, soft = self._get_idx_hard_and_soft_bounds(stage, field)
+            self.lam_x0[self.index_map[f'lam_{field}_in_lam_w'][stage]] = lam_upper[hard] - lam_lower[hard]
+            self.lam_g0[self.index_map[f'lam_{field}_sl_in_lam_g'][stage]] = -lam_lower[soft]
+            self.lam_g0[self.index_map[f'lam_{field}_su_in_lam_g'][stage]] = lam_upper[soft]
+        self.lam_g0[self.index_map['lam_g_in_lam_g'][stage]] = ug_lam_hard - lg_lam_hard
         self.lam_g0[self.index_map['lam_g_sl_in_lam_g'][stage]] = -lg_lam_soft
         self.lam_g0[self.index_map['lam_g_su_in_lam_g'][stage]] = ug_lam_soft
         # TODO: separate soft contributions into bu, bx, g for more accurate warm-starting
@@ -419,9 +423,8 @@ class AcadosCasadiOcpQpSolver:
             for i in range(N + 1):
                 nbu = dims.nbu[i]
                 nbx = dims.nbx[i]
-                ng_hard = len(self.index_map['lam_g_in_lam_g'][i])
                 ns_i = dims.ns[i]
-                n_lam_i = 2 * (nbu + nbx + ng_hard + ns_i)
+                n_lam_i = 2 * (nbu + nbx + dims.ng[i] + ns_i)
                 self.set(i, 'lam', v[offset:offset + n_lam_i]); offset += n_lam_i
         else:
             raise NotImplementedError(f"set_flat(): field '{field}' not implemented.")
\ No newline at end of file
-- 
2.43.0


From 36b43e804bb0d9a52856723e8dced149880528e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 25/66] fix: changed time steps reach the dynamics, GNSF redoes
 its precomputation

---
 acados/sim/sim_gnsf.c                   | 23 ++++++++++++++++-------
 interfaces/acados_c/ocp_nlp_interface.c |  3 +++
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 43b2844..721fd74 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -1028,6 +1028,7 @@ int sim_gnsf_precompute(void *config_, sim_in *in, sim_out *out, void *opts_, vo
         blasfeo_dtrsm_lunn(nK2, nu, 1.0, M2_LU, 0, 0, dK2_du, 0, 0, dK2_du, 0, 0);
 
         // precompute dx2f_dx2u
+        blasfeo_dgese(nx2, nx2 + nu, 0.0, dx2f_dx2u, 0, 0);
         for (int ii = 0; ii < nx2; ii++)
             blasfeo_dgein1(1.0, dx2f_dx2u, ii, ii);
 
@@ -2173,6 +2174,21 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
     sim_opts *opts = (sim_opts *) args;
     sim_gnsf_dims *dims = (sim_gnsf_dims *) in->dims;
     gnsf_model *model = in->model;
+
+    // the precomputed matrices depend on the step size
+    if (mem->dt != in->T / opts->num_steps)
+    {
+        if (model->fully_linear && !in->identity_seed)
+        {
+            // the precomputation would overwrite the seed
+            printf("ERROR sim_gnsf: mem->dt n!= in->T/opts->num_steps, check initialization\n");
+            exit(1);
+        }
+        int status = sim_gnsf_precompute(config, in, out, args, mem_, work_);
+        if (status != ACADOS_SUCCESS)
+            return status;
+    }
+
     gnsf_workspace *workspace =
         (gnsf_workspace *) sim_gnsf_cast_workspace(config, dims, opts, work_);
 
@@ -2211,13 +2227,6 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
 
     int nxz2 = nx2 + nz2;
 
-    // assert - only use supported features
-    if (mem->dt != in->T / opts->num_steps)
-    {
-        printf("ERROR sim_gnsf: mem->dt n!= in->T/opts->num_steps, check initialization\n");
-        exit(1);
-    }
-
     // assign variables from workspace
     struct blasfeo_dmat *J_r_vv =
         &workspace->J_r_vv;  // store the the jacobian of the residual w.r.t. vv
diff --git a/interfaces/acados_c/ocp_nlp_interface.c b/interfaces/acados_c/ocp_nlp_interface.c
index f342da0..50e1fc9 100644
--- a/interfaces/acados_c/ocp_nlp_interface.c
+++ b/interfaces/acados_c/ocp_nlp_interface.c
@@ -440,6 +440,9 @@ void ocp_nlp_in_set(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_nlp_in *in,
     {
         double *Ts_value = value;
         in->Ts[stage] = Ts_value[0];
+        // the dynamics module keeps a copy of the time step
+        config->dynamics[stage]->model_set(config->dynamics[stage], dims->dynamics[stage],
+                                           in->dynamics[stage], "T", Ts_value);
     }
     else if (!strcmp(field, "parameter_values"))
     {
-- 
2.43.0


From fc889a63ad1e1498bb255e7d8033820d517cdf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 26/66] fix: GNSF precomputation permutes the right-hand side
 ZZx, not ZZu twice

---
 acados/sim/sim_gnsf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 721fd74..1254e6e 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -956,7 +956,7 @@ int sim_gnsf_precompute(void *config_, sim_in *in, sim_out *out, void *opts_, vo
     blasfeo_dgead(nZ1, nx1, 1.0, &AA2, 0, 0, ZZx, 0, 0);  // ZZx = ZZx + AA2;
 
     // solve QQ1\ZZx and store result in ZZx;
-    blasfeo_drowpe(nZ1, ipivQQ1, ZZu);  // permute also rhs
+    blasfeo_drowpe(nZ1, ipivQQ1, ZZx);  // permute also rhs
     blasfeo_dtrsm_llnu(nZ1, nx1, 1.0, &QQ1, 0, 0, ZZx, 0, 0, ZZx, 0, 0);
     blasfeo_dtrsm_lunn(nZ1, nx1, 1.0, &QQ1, 0, 0, ZZx, 0, 0, ZZx, 0,
                        0);  // ZZx now contains QQ1\ZZx
-- 
2.43.0


From 668411d9308f752eb0ab1d67c006882dacbc84af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 27/66] fix: time steps and p_global kept by AcadosOcpSolver:
 independent of the caller's array, follow resets; set_params_sparse checks
 indices and memory layout

---
 .../acados_template/acados_ocp_solver.py      | 44 ++++++++++++++-----
 .../c_templates_tera/acados_solver.in.c       | 14 +++++-
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 006d00b..172d5b8 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -287,7 +287,7 @@ class AcadosOcpSolver:
         # Store a reference to the OCP formulation instead of re-loading its data from json.
         self.__ocp = ocp
         self.__save_p_global = save_p_global
-        self.__p_global_values = ocp.p_global_values if save_p_global else np.array([])
+        self.__p_global_values = np.array(ocp.p_global_values) if save_p_global else np.array([])
 
         if check_reuse_possible and (not generate or not build):
             # Check if existing code can be reused
@@ -309,6 +309,11 @@ class AcadosOcpSolver:
         # store solver-relevant information directly from the OCP formulation object
         self.__problem_class = "OCP" if isinstance(ocp, AcadosOcp) else "MOCP"
         self.__N = ocp.solver_options.N_horizon
+        # time steps and p_global the solver is generated with, the former are also stored with the current value,
+        # as the ocp object might be shared by multiple solvers
+        self.__time_steps_init = np.array(ocp.solver_options.time_steps, dtype=np.float64)
+        self.__time_steps = self.__time_steps_init
+        self.__p_global_values_init = self.__p_global_values
 
         if self.__problem_class == "OCP":
             self.__has_x0 = ocp.constraints.has_x0
@@ -665,6 +670,18 @@ class AcadosOcpSolver:
         if reset_x_to_x0_bar and not self.__has_x0:
             raise ValueError('reset_x_to_x0_bar can only be used if there is an initial state constraint!')
         getattr(self.shared_lib, f"{self.ocp.name}_acados_reset")(self.capsule, reset_qp_solver_mem, reset_numerical_values, reset_solver_options, reset_x_to_x0_bar)
+        if reset_numerical_values:
+            self.__p_global_values = self.__p_global_values_init
+            if self.__problem_class == "OCP" and self.__time_steps.size == self.__time_steps_init.size:
+                self.__store_time_steps(self.__time_steps_init)
+
+
+    def __store_time_steps(self, time_steps: np.ndarray):
+        self.__time_steps = time_steps
+        self.__N = time_steps.size
+        self.ocp.solver_options.time_steps = time_steps.copy()
+        if time_steps.size > 0:
+            self.ocp.solver_options.Tsim = time_steps[0]
 
 
     def set_new_time_steps(self, new_time_steps):
@@ -685,15 +702,18 @@ class AcadosOcpSolver:
         if not self.solver_created:
             raise RuntimeError('Solver was not yet created!')
 
+        # contiguous copy, independent of the array of the caller
+        new_time_steps = np.array(new_time_steps, dtype=np.float64, order='C').flatten()
+
         # check if time steps really changed in value
-        if np.array_equal(self.ocp.solver_options.time_steps, new_time_steps):
+        if np.array_equal(self.__time_steps, new_time_steps):
             return
 
         N = new_time_steps.size
         new_time_steps_data = cast(new_time_steps.ctypes.data, POINTER(c_double))
 
         # check if recreation of acados is necessary (no need to recreate acados if sizes are identical)
-        if len(self.ocp.solver_options.time_steps) == N:
+        if self.__time_steps.size == N:
             assert getattr(self.shared_lib, f"{self.ocp.name}_acados_update_time_steps")(self.capsule, N, new_time_steps_data) == 0
         else:  # recreate the solver with the new time steps
             self.solver_created = False
@@ -709,10 +729,11 @@ class AcadosOcpSolver:
             # get pointers solver
             self.__get_pointers_solver()
 
+            # recreation sets the initial value of p_global
+            self.__p_global_values = self.__p_global_values_init
+
         # store time_steps, N
-        self.ocp.solver_options.time_steps = new_time_steps
-        self.__N = N
-        self.ocp.solver_options.Tsim = self.ocp.solver_options.time_steps[0]
+        self.__store_time_steps(new_time_steps)
 
 
     def update_qp_solver_cond_N(self, qp_solver_cond_N: int):
@@ -1235,7 +1256,7 @@ class AcadosOcpSolver:
         if field_ == 'p_global':
             if not self.__save_p_global:
                 raise ValueError(f'The field \'{field_}\' is not stored within the solver by default. Please set the option \'save_p_global=True\' when instantiating the solver.')
-            return self.__p_global_values
+            return self.__p_global_values.copy()
 
         field = field_.encode('utf-8')
 
@@ -2636,14 +2657,15 @@ class AcadosOcpSolver:
                  f' Got sizes idx {param_values_.shape[0]}, param_values {len(idx_values_)}.')
 
         p_dimension = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, stage_, "p".encode('utf-8'))
-        if any(idx_values_ >= p_dimension):
-            raise ValueError(f'idx_values_ contains value >= np = {p_dimension} for stage {stage_}.')
+        c_idx_values = np.ascontiguousarray(idx_values_, dtype=np.intc)
+        if np.any(c_idx_values < 0) or np.any(c_idx_values >= p_dimension):
+            raise ValueError(f'idx_values_ contains value < 0 or >= np = {p_dimension} for stage {stage_}.')
 
         stage = c_int(stage_)
         n_update = c_int(len(param_values_))
 
+        param_values_ = np.ascontiguousarray(param_values_)
         param_data = cast(param_values_.ctypes.data, POINTER(c_double))
-        c_idx_values = np.ascontiguousarray(idx_values_, dtype=np.intc)
         idx_data = cast(c_idx_values.ctypes.data, POINTER(c_int))
 
         getattr(self.shared_lib, f"{self.ocp.name}_acados_update_params_sparse") \
@@ -2672,7 +2694,7 @@ class AcadosOcpSolver:
 
         status = getattr(self.shared_lib, f"{self.ocp.name}_acados_set_p_global_and_precompute_dependencies")(self.capsule, c_data, data_len)
         if self.__save_p_global:
-            self.__p_global_values = data_
+            self.__p_global_values = data.copy()
 
         return status
 
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 24d2be3..1dcceea 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -3126,7 +3126,19 @@ int {{ name }}_acados_reset({{ name }}_solver_capsule* capsule, int reset_qp_sol
         {{ name }}_acados_create_set_default_parameters(capsule);
 
         // reset numerical values in nlp_in
-        {{ name }}_acados_create_setup_nlp_in_numerical_values(capsule, N, NULL);
+        if (N == {{ name | upper }}_N)
+        {
+            {{ name }}_acados_create_setup_nlp_in_numerical_values(capsule, N, NULL);
+        }
+        else
+        {
+            // the initial time steps belong to another number of shooting intervals: keep the current ones
+            double* time_steps = malloc(N*sizeof(double));
+            for (int i = 0; i < N; i++)
+                ocp_nlp_in_get(nlp_config, nlp_dims, nlp_in, i, "Ts", &time_steps[i]);
+            {{ name }}_acados_create_setup_nlp_in_numerical_values(capsule, N, time_steps);
+            free(time_steps);
+        }
     }
 
     if (reset_solver_options)
-- 
2.43.0


From 9d60baeddc03635ad46d2e864ef78c52e1a39845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 28/66] fix: GNSF precomputation does not rely on a
 zero-initialized workspace

---
 acados/sim/sim_gnsf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 1254e6e..634af3c 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -792,6 +792,7 @@ int sim_gnsf_precompute(void *config_, sim_in *in, sim_out *out, void *opts_, vo
     blasfeo_dgese(nK1, nK1, 0.0, &EE1, 0, 0);
     blasfeo_dgese(nZ1, nZ1, 0.0, &EE2, 0, 0);
     blasfeo_dgese(nyy, nK1, 0.0, &LLK, 0, 0);
+    blasfeo_dgese(nyy, nZ1, 0.0, &LLZ, 0, 0);
     blasfeo_dgese(nK2, nK2, 0.0, M2_LU, 0, 0);
 
     blasfeo_pack_dmat(nx1, nx1, model->E, nx1 + nz1, &E11, 0, 0);
-- 
2.43.0


From d34fba84fb2c06a5ca74161ae102f72bec931d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 29/66] fix: GNSF detection of the linear output system:
 components that enter several equations, order of equations and components

---
 .../acados_template/acados_template/gnsf.py   | 104 +++++++-----------
 1 file changed, 38 insertions(+), 66 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 1201bc5..e79f3b8 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -1454,67 +1454,49 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     # determine maximal index set I_x2
     # such that the components x(I_x2) can be written as a LOS
     Eq_map = []
+
+    def number_of_LOS_dependencies(eq):
+        I_x2_candidates = [i for i in I_LOS_candidates if i < nx]
+        return len(set.union(
+            set(i for i in I_LOS_candidates if E[eq, i] != 0),
+            set(i for i in I_x2_candidates if A[eq, i] != 0),
+        ))
+
     while True:
         ## find equations corresponding to new_nsf_components
         for ii in new_nsf_components:
             current_var = xdot_z[ii]
-            var_name = current_var.name
+            var_name = current_var.name()
 
-            # print( unsorted_dyn)
-            # print("np.nonzero(E[:,ii])[0]",np.nonzero(E[:,ii])[0])
-            I_eq = set.intersection(set(np.nonzero(E[:, ii])[0]), unsorted_dyn)
+            I_eq = sorted(set.intersection(set(np.nonzero(E[:, ii])[0]), unsorted_dyn))
             if len(I_eq) == 1:
-                i_eq = I_eq.pop()
+                i_eq = I_eq[0]
                 if print_info:
                     print(f"component {i_eq} is associated with state {ii}")
             elif len(I_eq) > 1:  # x_ii_dot occurs in more than 1 eq linearly
                 # find the equation with least linear dependencies on
                 # I_LOS_cancidates
-                number_of_eq = 0
-                candidate_dependencies = np.zeros(len(I_eq), 1)
-                I_x2_candidates = set.intersection(I_LOS_candidates, set(range(nx)))
-                for eq in I_eq:
-                    depending_candidates = set.union(
-                        np.nonzero(E[eq, I_LOS_candidates])[0],
-                        np.nonzero(A[eq, I_x2_candidates])[0],
-                    )
-                    candidate_dependencies[number_of_eq] = +len(depending_candidates)
-                    number_of_eq += 1
-                    number_of_eq = np.argmin(candidate_dependencies)
-                i_eq = I_eq[number_of_eq]
+                i_eq = min(I_eq, key=number_of_LOS_dependencies)
             else:  ## x_ii_dot does not occur linearly in any of the unsorted dynamics
-                for j in unsorted_dyn:
-                    phi_eq_j = gnsf["phi_expr"][np.nonzero(C[j, :])[0]]
-                    if ca.which_depends(phi_eq_j, xdot_z(ii))[0]:
-                        I_eq = set.union(I_eq, j)
+                for j in sorted(unsorted_dyn):
+                    I_phi = [int(i) for i in np.nonzero(C[j, :])[0]]
+                    if I_phi and any(ca.which_depends(gnsf["phi_expr"][I_phi], current_var)):
+                        I_eq.append(j)
                 if is_empty(I_eq):
-                    I_eq = unsorted_dyn
+                    I_eq = sorted(unsorted_dyn)
                 # find the equation with least linear dependencies on I_LOS_cancidates
-                number_of_eq = 0
-                candidate_dependencies = np.zeros(len(I_eq), 1)
-                I_x2_candidates = set.intersection(I_LOS_candidates, set(range(nx)))
-                for eq in I_eq:
-                    depending_candidates = set.union(
-                        np.nonzero(E[eq, I_LOS_candidates])[0],
-                        np.nonzero(A[eq, I_x2_candidates])[0],
-                    )
-                    candidate_dependencies[number_of_eq] = +len(depending_candidates)
-                    number_of_eq += 1
-                    number_of_eq = np.argmin(candidate_dependencies)
-                i_eq = I_eq[number_of_eq]
+                i_eq = min(I_eq, key=number_of_LOS_dependencies)
                 ## add 1 * [xdot,z](ii) to both sides of i_eq
                 if print_info:
                     print(f"adding 1 * {var_name} to both sides of equation {i_eq}.")
-                gnsf["E"][i_eq, ii] = 1
-                i_phi = np.nonzero(gnsf["C"][i_eq, :])
-                if is_empty(i_phi):
-                    i_phi = len(gnsf["phi_expr"]) + 1
-                    gnsf["C"][i_eq, i_phi] = 1  # add column to C with 1 entry
-                    gnsf["phi_expr"] = ca.vertcat(gnsf["phi_expr"], 0)
-                    gnsf["phi_expr"][i_phi] = (
-                        gnsf["phi_expr"](i_phi)
-                        + gnsf["E"][i_eq, ii] / gnsf["C"][i_eq, i_phi] * xdot_z[ii]
-                    )
+                E[i_eq, ii] = 1
+                # add column to C with 1 entry
+                C = np.hstack((C, np.zeros((nx + nz, 1))))
+                C[i_eq, -1] = 1
+                gnsf["C"] = C
+                gnsf["phi_expr"] = ca.vertcat(gnsf["phi_expr"], current_var)
+                gnsf["n_out"] = C.shape[1]
+                phi_old = gnsf["phi_expr"]
                 if print_info:
                     print(f"detected equation {i_eq} to correspond to variable {var_name}")
             I_nsf_eq = set.union(I_nsf_eq, {i_eq})
@@ -1537,22 +1519,11 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
             break
         # remove new_nsf_components from candidates
         I_LOS_candidates = set.difference(I_LOS_candidates, new_nsf_components)
-    if not is_empty(Eq_map):
-        # [~, new_eq_order] = sort(Eq_map(1,:))
-        # I_nsf_eq = Eq_map(2, new_eq_order )
-        for count, m in enumerate(Eq_map):
-            m.append(count)
-        sorted(Eq_map, key=lambda x: x[1])
-        new_eq_order = [m[2] for m in Eq_map]
-        Eq_map = [Eq_map[i] for i in new_eq_order]
-        I_nsf_eq = [m[1] for m in Eq_map]
-
-    else:
-        I_nsf_eq = []
+    # order the equations as the components they are associated with
+    I_nsf_eq = [i_eq for _, i_eq in sorted(Eq_map)]
 
     I_LOS_components = I_LOS_candidates
     I_LOS_eq = sorted(set.difference(set(range(nx + nz)), I_nsf_eq))
-    I_nsf_eq = sorted(I_nsf_eq)
 
     I_x1 = set.intersection(I_nsf_components, set(range(nx)))
     I_z1 = set.intersection(I_nsf_components, set(range(nx, nx + nz)))
@@ -1562,6 +1533,11 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     I_z2 = set.intersection(I_LOS_components, set(range(nx, nx + nz)))
     I_z2 = set([i - nx for i in I_z2])
 
+    I_x1 = sorted(I_x1)
+    I_x2 = sorted(I_x2)
+    I_z1 = sorted(I_z1)
+    I_z2 = sorted(I_z2)
+
     if print_info:
         print(f"I_x1 {I_x1}, I_x2 {I_x2}")
 
@@ -1587,10 +1563,6 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     else:
         z2 = z[list(I_z2)]
 
-    I_x1 = sorted(I_x1)
-    I_x2 = sorted(I_x2)
-    I_z1 = sorted(I_z1)
-    I_z2 = sorted(I_z2)
     gnsf["xdot"] = ca.vertcat(x1dot, x2dot)
     gnsf["x"] = ca.vertcat(x1, x2)
     gnsf["z"] = ca.vertcat(z1, z2)
@@ -1644,11 +1616,11 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     gnsf["f_lo_expr"] = f_LO
 
     ## remove I_LOS_eq from NSF type system
-    gnsf["A"] = gnsf["A"][np.ix_(sorted(I_nsf_eq), sorted(I_x1))]
-    gnsf["B"] = gnsf["B"][sorted(I_nsf_eq), :]
-    gnsf["C"] = gnsf["C"][sorted(I_nsf_eq), :]
-    gnsf["E"] = gnsf["E"][np.ix_(sorted(I_nsf_eq), sorted(I_nsf_components))]
-    gnsf["c"] = gnsf["c"][sorted(I_nsf_eq), :]
+    gnsf["A"] = gnsf["A"][np.ix_(I_nsf_eq, sorted(I_x1))]
+    gnsf["B"] = gnsf["B"][I_nsf_eq, :]
+    gnsf["C"] = gnsf["C"][I_nsf_eq, :]
+    gnsf["E"] = gnsf["E"][np.ix_(I_nsf_eq, sorted(I_nsf_components))]
+    gnsf["c"] = gnsf["c"][I_nsf_eq, :]
 
     ## reduce phi, C
     I_nonzero = []
-- 
2.43.0


From 1ffd5f636a1bdcf6da2db879bebf0e0ce973bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 30/66] fix: LINEAR_LS cost with adjoint solution sensitivities
 crashed the solver

The LINEAR_LS module did not implement memory_set_adj_lag_p_global_ptr and
memory_set_seed_ux_ptr, so creating a solver with with_solution_sens_wrt_params_adj
called a null pointer, and compute_adj_sol_sens_pdiff exited the process. The cost
does not depend on p_global, its contribution is zero.
---
 acados/ocp_nlp/ocp_nlp_cost_ls.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_ls.c b/acados/ocp_nlp/ocp_nlp_cost_ls.c
index 4edb52b..8719726 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_ls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_ls.c
@@ -704,6 +704,18 @@ void ocp_nlp_cost_ls_memory_set_jac_lag_stat_p_global_ptr(struct blasfeo_dmat *j
 }
 
 
+void ocp_nlp_cost_ls_memory_set_adj_lag_p_global_ptr(struct blasfeo_dvec *adj_lag_p_global, void *memory_)
+{
+    // do nothing -- ls cost can not depend on p_global, as it is not parametric
+}
+
+
+void ocp_nlp_cost_ls_memory_set_seed_ux_ptr(struct blasfeo_dvec *seed_ux, void *memory_)
+{
+    // do nothing -- ls cost can not depend on p_global, as it is not parametric
+}
+
+
 
 ////////////////////////////////////////////////////////////////////////////////
 //                                 workspace                                  //
@@ -1118,8 +1130,8 @@ void ocp_nlp_cost_ls_compute_jac_p(void *config_, void *dims_, void *model_,
 void ocp_nlp_cost_ls_compute_adj_sol_sens_pdiff(void *config_, void *dims_, void *model_,
                                        void *opts_, void *memory_, void *work_)
 {
-    printf("ocp_nlp_cost_ls_compute_adj_sol_sens_pdiff: not implemented yet.\n");
-    exit(1);
+    // do nothing -- ls cost can not depend on p_global, as it is not parametric
+    return;
 }
 
 
@@ -1175,6 +1187,8 @@ void ocp_nlp_cost_ls_config_initialize_default(void *config_, int stage)
     config->memory_set_RSQrq_ptr = &ocp_nlp_cost_ls_memory_set_RSQrq_ptr;
     config->memory_set_Z_ptr = &ocp_nlp_cost_ls_memory_set_Z_ptr;
     config->memory_set_jac_lag_stat_p_global_ptr = &ocp_nlp_cost_ls_memory_set_jac_lag_stat_p_global_ptr;
+    config->memory_set_adj_lag_p_global_ptr = &ocp_nlp_cost_ls_memory_set_adj_lag_p_global_ptr;
+    config->memory_set_seed_ux_ptr = &ocp_nlp_cost_ls_memory_set_seed_ux_ptr;
     config->workspace_calculate_size = &ocp_nlp_cost_ls_workspace_calculate_size;
     config->get_external_fun_workspace_requirement = &ocp_nlp_cost_ls_get_external_fun_workspace_requirement;
     config->set_external_fun_workspaces = &ocp_nlp_cost_ls_set_external_fun_workspaces;
-- 
2.43.0


From d0c8c89426da067bdd28f5d5e1564581dffd8860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 31/66] fix: number of slacks in value gradient, Hessian and
 slack sensitivities

The dimension field "s" is 2*ns; the multiplier layout and the shape of
sens_sl, sens_su need ns.
---
 .../acados_template/acados_ocp_batch_solver.py       |  4 ++--
 .../acados_template/acados_ocp_solver.py             | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
index 6a4ea1c..986cd92 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
@@ -434,12 +434,12 @@ class AcadosOcpBatchSolver():
 
             if return_sens_sl:
                 ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(
-                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "s".encode('utf-8'))
+                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "sl".encode('utf-8'))
                 sens_sl.append(np.zeros((n_batch, ns, ngrad), dtype=np.float64, order="C"))
 
             if return_sens_su:
                 ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(
-                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "s".encode('utf-8'))
+                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "sl".encode('utf-8'))
                 sens_su.append(np.zeros((n_batch, ns, ngrad), dtype=np.float64, order="C"))
 
             if s < N_horizon:
diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 172d5b8..be5b42d 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -799,7 +799,7 @@ class AcadosOcpSolver:
 
             nx = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "x".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
 
             lam = self.get(0, 'lam')
             nlam_non_slack = lam.shape[0]//2 - ns
@@ -808,7 +808,7 @@ class AcadosOcpSolver:
         elif with_respect_to == "initial_control":
             nu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "u".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
             lbu = self.get_from_qp_in(0, 'lbu')
             ubu = self.get_from_qp_in(0, 'ubu')
 
@@ -861,7 +861,7 @@ class AcadosOcpSolver:
             # lbu lbx lg lh lphi ubu ubx ug uh uphi
             nx = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "x".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
 
             nlam = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lam".encode('utf-8'))
             nlam_non_slack = nlam // 2 - ns
@@ -870,7 +870,7 @@ class AcadosOcpSolver:
 
         # elif with_respect_to == "initial_control":
         #     nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-        #     ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+        #     ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
 
         #     nlam = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lam".encode('utf-8'))
         #     nlam_non_slack = nlam // 2 - ns
@@ -990,11 +990,11 @@ class AcadosOcpSolver:
                 sens_lam.append(np.zeros((nlam, ngrad)))
 
             if return_sens_sl:
-                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "s".encode('utf-8'))
+                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "sl".encode('utf-8'))
                 sens_sl.append(np.zeros((ns, ngrad)))
 
             if return_sens_su:
-                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "s".encode('utf-8'))
+                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "sl".encode('utf-8'))
                 sens_su.append(np.zeros((ns, ngrad)))
 
             if s < self.N:
-- 
2.43.0


From 8a6d02b73fb9e5a98424a91574f84ba58f12a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 32/66] fix: declaration of terminal adjoint sensitivity
 function of h_e

Generated code with a terminal constraint h_e and adjoint solution sensitivities
did not compile.
---
 .../acados_template/c_templates_tera/acados_solver.in.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
index fff2fbd..346e605 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
@@ -276,7 +276,7 @@ typedef struct {{ name }}_solver_capsule
     external_function_external_param_casadi nl_constr_h_e_jac_p_hess_xu_p;
 {%- endif %}
 {% if code_gen_options.with_solution_sens_wrt_params_adj %}
-    external_function_external_param_casadi nl_constr_h_hess_ux_pdiff_adj_pdiff;
+    external_function_external_param_casadi nl_constr_h_e_hess_ux_pdiff_adj_pdiff;
 {%- endif %}
 {% if code_gen_options.with_value_sens_wrt_params %}
     external_function_external_param_casadi nl_constr_h_e_adj_p;
-- 
2.43.0


From 4e51942ed2bc63450d2833313a44c1e8320c271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 33/66] fix: value gradient wrt p_global misses terminal
 constraints

Also pass the constraint options instead of the nlp options.
---
 acados/ocp_nlp/ocp_nlp_common.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index 335a67e..a522b46 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -4212,7 +4212,7 @@ void ocp_nlp_common_eval_lagr_grad_p(ocp_nlp_config *config, ocp_nlp_dims *dims,
             blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
 
             // constraints contribution
-            config->constraints[i]->compute_adj_p(config->constraints[i], dims->constraints[i], in->constraints[i], opts,
+            config->constraints[i]->compute_adj_p(config->constraints[i], dims->constraints[i], in->constraints[i], opts->constraints[i],
                                     mem->constraints[i], work->constraints[i], &work->tmp_np_global);
 
             blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
@@ -4223,6 +4223,11 @@ void ocp_nlp_common_eval_lagr_grad_p(ocp_nlp_config *config, ocp_nlp_dims *dims,
                                     mem->cost[N], work->cost[N], &work->tmp_np_global);
         blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
 
+        // terminal constraints contribution
+        config->constraints[N]->compute_adj_p(config->constraints[N], dims->constraints[N], in->constraints[N], opts->constraints[N],
+                                mem->constraints[N], work->constraints[N], &work->tmp_np_global);
+        blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
+
         blasfeo_unpack_dvec(np_global, &mem->out_np_global, 0, grad_p, 1);
     }
     else
-- 
2.43.0


From 1a986786b67de931a3cc796ec5cedb101fab8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 34/66] fix: sign of BGH constraint contribution to Lagrangian
 p_global Jacobian

Forward solution sensitivities wrt p_global were wrong when the mixed derivative
of h wrt (x,u) and p_global is nonzero; the adjoint ones were right.
---
 acados/ocp_nlp/ocp_nlp_constraints_bgh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
index c1127ca..c46c75e 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
@@ -1826,7 +1826,7 @@ void ocp_nlp_constraints_bgh_compute_jac_hess_p(void *config_, void *dims_, void
                     ext_fun_type_in, ext_fun_in, ext_fun_type_out, ext_fun_out);
 
         // add constraint contribution to stationarity jacobian wrt p_global
-        blasfeo_dgead(nx+nu, np_global, -1.0, &work->jac_lag_p_global, 0, 0, memory->jac_lag_stat_p_global, 0, 0);
+        blasfeo_dgead(nx+nu, np_global, 1.0, &work->jac_lag_p_global, 0, 0, memory->jac_lag_stat_p_global, 0, 0);
     }
 }
 
-- 
2.43.0


From 21d07048476748b2f24c7dc10227b8a5b02d28e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:56 +0000
Subject: [PATCH 35/66] fix: CONVEXIFY reads updated Hessian in eigenvalue
 decomposition

---
 acados/ocp_nlp/ocp_nlp_reg_convexify.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_reg_convexify.c b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
index fd9a27e..8e777bb 100644
--- a/acados/ocp_nlp/ocp_nlp_reg_convexify.c
+++ b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
@@ -579,6 +579,9 @@ void ocp_nlp_reg_convexify_regularize(void *config, ocp_nlp_reg_dims *dims, void
         // printf("BAQ\n");
         // blasfeo_print_dmat(nx+nu, nx, &BAQ, 0, 0);
 
+        // make symmetric: only the lower triangle was updated, but the eigenvalue decomposition reads the upper one
+        blasfeo_dtrtr_l(nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
+
         blasfeo_unpack_dmat(nu[ii], nu[ii], mem->RSQrq[ii], 0, 0, mem->R, nu[ii]);
         acados_eigen_decomposition(nu[ii], mem->R, mem->V, mem->d, mem->e);
 
@@ -691,6 +694,9 @@ void ocp_nlp_reg_convexify_regularize_lhs(void *config, ocp_nlp_reg_dims *dims,
 
         // blasfeo_drowex(nu[ii]+nx[ii], 1.0, mem->RSQrq[ii], nu[ii]+nx[ii], 0, mem->rq[ii], 0);
 
+        // make symmetric: only the lower triangle was updated, but the eigenvalue decomposition reads the upper one
+        blasfeo_dtrtr_l(nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
+
         blasfeo_unpack_dmat(nu[ii], nu[ii], mem->RSQrq[ii], 0, 0, mem->R, nu[ii]);
         acados_eigen_decomposition(nu[ii], mem->R, mem->V, mem->d, mem->e);
 
@@ -782,6 +788,9 @@ void ocp_nlp_reg_convexify_regularize_rhs(void *config, ocp_nlp_reg_dims *dims,
 
         blasfeo_drowex(nu[ii]+nx[ii], 1.0, mem->RSQrq[ii], nu[ii]+nx[ii], 0, mem->rq[ii], 0);
 
+        // make symmetric: only the lower triangle was updated, but the eigenvalue decomposition reads the upper one
+        blasfeo_dtrtr_l(nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
+
         blasfeo_unpack_dmat(nu[ii], nu[ii], mem->RSQrq[ii], 0, 0, mem->R, nu[ii]);
         acados_eigen_decomposition(nu[ii], mem->R, mem->V, mem->d, mem->e);
 
-- 
2.43.0


From 177db88622dd66681bc8c007c249c5b6124ce390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 36/66] fix: ERK/IRK workspace covers adjoint-only evaluation

---
 acados/sim/sim_erk_integrator.c | 18 +++++++++++++++++-
 acados/sim/sim_irk_integrator.c | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/acados/sim/sim_erk_integrator.c b/acados/sim/sim_erk_integrator.c
index 82a0688..5910cac 100644
--- a/acados/sim/sim_erk_integrator.c
+++ b/acados/sim/sim_erk_integrator.c
@@ -444,7 +444,7 @@ void sim_erk_memory_get(void *config_, void *dims_, void *mem_, const char *fiel
  * workspace
  ************************************************/
 
-acados_size_t sim_erk_workspace_calculate_size(void *config_, void *dims_, void *opts_)
+static acados_size_t sim_erk_workspace_size_for_opts(void *dims_, void *opts_)
 {
     sim_opts *opts = opts_;
     sim_erk_dims *dims = (sim_erk_dims *) dims_;
@@ -499,6 +499,22 @@ acados_size_t sim_erk_workspace_calculate_size(void *config_, void *dims_, void
 
 
 
+acados_size_t sim_erk_workspace_calculate_size(void *config_, void *dims_, void *opts_)
+{
+    acados_size_t size = sim_erk_workspace_size_for_opts(dims_, opts_);
+
+    // NOTE: the dynamics module temporarily switches to adjoint sensitivities only, see compute_fun_and_adj
+    sim_opts adj_opts = *((sim_opts *) opts_);
+    adj_opts.sens_forw = false;
+    adj_opts.sens_hess = false;
+    adj_opts.sens_adj = true;
+    acados_size_t adj_size = sim_erk_workspace_size_for_opts(dims_, &adj_opts);
+
+    return adj_size > size ? adj_size : size;
+}
+
+
+
 static void *sim_erk_cast_workspace(void *config_, sim_erk_dims *dims, sim_opts *opts, void *raw_memory, sim_erk_memory *mem)
 {
     int ns = opts->ns;
diff --git a/acados/sim/sim_irk_integrator.c b/acados/sim/sim_irk_integrator.c
index 5ba4616..f4c7995 100644
--- a/acados/sim/sim_irk_integrator.c
+++ b/acados/sim/sim_irk_integrator.c
@@ -623,7 +623,7 @@ void sim_irk_memory_get(void *config_, void *dims_, void *mem_, const char *fiel
  * workspace
  ************************************************/
 
-acados_size_t sim_irk_workspace_calculate_size(void *config_, void *dims_, void *opts_)
+static acados_size_t sim_irk_workspace_size_for_opts(void *dims_, void *opts_)
 {
     sim_irk_dims *dims = (sim_irk_dims *) dims_;
     sim_opts *opts = opts_;
@@ -747,6 +747,22 @@ acados_size_t sim_irk_workspace_calculate_size(void *config_, void *dims_, void
     return size;
 }
 
+
+
+acados_size_t sim_irk_workspace_calculate_size(void *config_, void *dims_, void *opts_)
+{
+    acados_size_t size = sim_irk_workspace_size_for_opts(dims_, opts_);
+
+    // NOTE: the dynamics module temporarily switches to adjoint sensitivities only, see compute_fun_and_adj
+    sim_opts adj_opts = *((sim_opts *) opts_);
+    adj_opts.sens_forw = false;
+    adj_opts.sens_hess = false;
+    adj_opts.sens_adj = true;
+    acados_size_t adj_size = sim_irk_workspace_size_for_opts(dims_, &adj_opts);
+
+    return adj_size > size ? adj_size : size;
+}
+
 static void *sim_irk_workspace_cast(void *config_, void *dims_, void *opts_, void *raw_memory)
 {
     sim_opts *opts = opts_;
-- 
2.43.0


From d5ae3051768960530937936beace5e63045bc4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 37/66] fix: CONVEXIFY dual correction with split
 regularization uses current gradient

---
 acados/ocp_nlp/ocp_nlp_reg_convexify.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_reg_convexify.c b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
index 8e777bb..e07ab89 100644
--- a/acados/ocp_nlp/ocp_nlp_reg_convexify.c
+++ b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
@@ -781,7 +781,8 @@ void ocp_nlp_reg_convexify_regularize_rhs(void *config, ocp_nlp_reg_dims *dims,
         blasfeo_drowin(nx[ii+1], 1.0, mem->b[ii], 0, mem->BAbt[ii], nu[ii]+nx[ii], 0);
         blasfeo_drowin(nu[ii]+nx[ii], 1.0, mem->rq[ii], 0, mem->RSQrq[ii], nu[ii]+nx[ii], 0);
 
-        // blasfeo_dgecp(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, &mem->original_RSQrq[ii], 0, 0);
+        // backup rq -> original_RSQrq
+        blasfeo_drowin(nu[ii]+nx[ii], 1.0, mem->rq[ii], 0, &mem->original_RSQrq[ii], nu[ii]+nx[ii], 0);
 
         blasfeo_dgemm_nt(nu[ii]+nx[ii], nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->Q_bar, 0, 0, 0.0, &mem->BAQ, 0, 0, &mem->BAQ, 0, 0);
         blasfeo_dsyrk_ln_mn(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->BAQ, 0, 0, 1.0, mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
-- 
2.43.0


From 0fbab33bcce44ef4d347bd6f93bebda9d7e9a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 38/66] fix: RTI statistics are not written beyond their memory

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 39 ++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index d1169d4..18f02bd 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -229,6 +229,14 @@ void ocp_nlp_sqp_rti_opts_set_at_stage(void *config_, void *opts_, size_t stage,
  * memory
  ************************************************/
 
+static int ocp_nlp_sqp_rti_get_stat_m(ocp_nlp_sqp_rti_opts *opts)
+{
+    // NOTE: AS-RTI-A always performs one iteration in the preparation phase.
+    return 2 + (opts->as_rti_iter > 1 ? opts->as_rti_iter : 1);
+}
+
+
+
 acados_size_t ocp_nlp_sqp_rti_memory_calculate_size(void *config_,
     void *dims_, void *opts_, void *in_)
 {
@@ -246,7 +254,7 @@ acados_size_t ocp_nlp_sqp_rti_memory_calculate_size(void *config_,
     size += ocp_nlp_memory_calculate_size(config, dims, nlp_opts, in);
 
     // stat
-    int stat_m = 2 + opts->as_rti_iter;
+    int stat_m = ocp_nlp_sqp_rti_get_stat_m(opts);
     int stat_n = 2; // qp_status, qp_iter
     if (opts->rti_log_residuals)
         stat_n += 4;  // nlp_res
@@ -286,7 +294,7 @@ void *ocp_nlp_sqp_rti_memory_assign(void *config_, void *dims_,
 
     // stat
     mem->stat = (double *) c_ptr;
-    mem->stat_m = 2 + opts->as_rti_iter;
+    mem->stat_m = ocp_nlp_sqp_rti_get_stat_m(opts);
     mem->stat_n = 2; // qp_status, qp_iter
     if (opts->rti_log_residuals)
         mem->stat_n += 4;  // nlp_res
@@ -372,6 +380,18 @@ static void reset_stats_and_sub_timers(ocp_nlp_sqp_rti_memory *mem)
 
 
 
+static void rti_store_qp_info_in_stats(ocp_nlp_sqp_rti_memory *mem, int qp_status, int qp_iter)
+{
+    int iter = mem->nlp_mem->iter;
+    if (iter < mem->stat_m)
+    {
+        mem->stat[mem->stat_n * iter+0] = qp_status;
+        mem->stat[mem->stat_n * iter+1] = qp_iter;
+    }
+}
+
+
+
 static void rti_store_residuals_in_stats(ocp_nlp_sqp_rti_opts *opts, ocp_nlp_sqp_rti_memory *mem)
 {
     ocp_nlp_memory *nlp_mem = mem->nlp_mem;
@@ -618,8 +638,7 @@ static void ocp_nlp_sqp_rti_feedback_step(ocp_nlp_config *config, ocp_nlp_dims *
     }
 
     // save statistics
-    mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-    mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+    rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
 
     if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
     {
@@ -875,8 +894,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
         // save statistics
         ocp_qp_out_get(nlp_mem->qp_out, 0, "qp_info", &qp_info_);
         qp_iter = qp_info_->num_iter;
-        mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-        mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+        rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
 
         if (nlp_opts->print_level > 3)
         {
@@ -929,8 +947,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             qp_iter = qp_info_->num_iter;
 
             // save statistics
-            mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-            mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
 
             // compute correct dual solution in case of Hessian regularization
             acados_tic(&timer1);
@@ -999,8 +1016,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             qp_iter = qp_info_->num_iter;
 
             // save statistics
-            mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-            mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
             if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
             {
 #ifndef ACADOS_SILENT
@@ -1071,8 +1087,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             qp_iter = qp_info_->num_iter;
 
             // save statistics
-            mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-            mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
 
             if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
             {
-- 
2.43.0


From 65acb4d1ad1dcc06e74b8bb259e4cec35701eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 39/66] fix: AS-RTI-A returns QP failure of the preparation
 phase

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index 18f02bd..3e53e8d 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -904,6 +904,16 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             print_ocp_qp_out(nlp_mem->qp_out);
         }
 
+        if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
+        {
+#ifndef ACADOS_SILENT
+            printf("\nSQP_RTI: QP solver returned error status %d (%s) QP iteration %d.\n",
+                qp_status, status_to_string(qp_status), qp_iter);
+#endif
+            nlp_mem->status = ACADOS_QP_FAILURE;
+            return;
+        }
+
         // update variables
         double step_size;
         globalization_status = config->globalization->find_acceptable_iterate(config, dims, nlp_in, nlp_out, nlp_mem, mem, nlp_work, nlp_opts, &step_size);
-- 
2.43.0


From 4df54dd5b6193cec4e0fa9c9695ed42ce33848a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 40/66] fix: RTI residual logging evaluates all residuals and
 keeps the QP linearization

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 97 ++++++++++++++++++++++++++------
 acados/ocp_nlp/ocp_nlp_sqp_rti.h |  4 ++
 2 files changed, 85 insertions(+), 16 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index 3e53e8d..588118f 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -322,6 +322,22 @@ void *ocp_nlp_sqp_rti_memory_assign(void *config_, void *dims_,
  * workspace
  ************************************************/
 
+static void ocp_nlp_sqp_rti_get_qp_backup_dims(ocp_nlp_dims *dims, int *nv_max, int *ng_max)
+{
+    ocp_qp_dims *qp_dims = dims->qp_solver->orig_dims;
+
+    *nv_max = 0;
+    *ng_max = 0;
+    for (int i = 0; i <= dims->N; i++)
+    {
+        int nv_i = qp_dims->nu[i] + qp_dims->nx[i];
+        *nv_max = nv_i > *nv_max ? nv_i : *nv_max;
+        *ng_max = qp_dims->ng[i] > *ng_max ? qp_dims->ng[i] : *ng_max;
+    }
+}
+
+
+
 acados_size_t ocp_nlp_sqp_rti_workspace_calculate_size(void *config_,
     void *dims_, void *opts_, void *in_)
 {
@@ -338,6 +354,17 @@ acados_size_t ocp_nlp_sqp_rti_workspace_calculate_size(void *config_,
     // nlp
     size += ocp_nlp_workspace_calculate_size(config, dims, nlp_opts, in);
 
+    // backup of constraint Jacobian and Hessian, used if residuals are logged
+    if (opts->rti_log_residuals)
+    {
+        int nv_max, ng_max;
+        ocp_nlp_sqp_rti_get_qp_backup_dims(dims, &nv_max, &ng_max);
+
+        size += 64;  // blasfeo_mem align
+        size += blasfeo_memsize_dmat(nv_max, ng_max);
+        size += blasfeo_memsize_dmat(nv_max+1, nv_max);
+    }
+
     return size;
 }
 
@@ -359,6 +386,17 @@ static void ocp_nlp_sqp_rti_cast_workspace(
         config, dims, nlp_opts, nlp_in, nlp_mem, c_ptr);
     c_ptr += ocp_nlp_workspace_calculate_size(config, dims, nlp_opts, nlp_in);
 
+    // backup of constraint Jacobian and Hessian
+    if (opts->rti_log_residuals)
+    {
+        int nv_max, ng_max;
+        ocp_nlp_sqp_rti_get_qp_backup_dims(dims, &nv_max, &ng_max);
+
+        align_char_to(64, &c_ptr);
+        assign_and_advance_blasfeo_dmat_mem(nv_max, ng_max, &work->backup_DCt, &c_ptr);
+        assign_and_advance_blasfeo_dmat_mem(nv_max+1, nv_max, &work->backup_RSQrq, &c_ptr);
+    }
+
     assert((char *) work + ocp_nlp_sqp_rti_workspace_calculate_size(config,
         dims, opts, nlp_in) >= c_ptr);
 
@@ -413,31 +451,61 @@ static void rti_store_residuals_in_stats(ocp_nlp_sqp_rti_opts *opts, ocp_nlp_sqp
 
 
 
+// evaluates constraint function and adjoint of stage i at the current iterate,
+// leaves the linearization in the QP unchanged
+static void evaluate_constraints_for_residuals(ocp_nlp_config *config,
+    ocp_nlp_dims *dims, ocp_nlp_in *in, ocp_nlp_opts *opts,
+    ocp_nlp_memory *mem, ocp_nlp_sqp_rti_workspace *rti_work, int i)
+{
+    ocp_nlp_workspace *work = rti_work->nlp_work;
+    struct blasfeo_dmat *DCt = mem->qp_in->DCt + i;
+    struct blasfeo_dmat *RSQrq = mem->qp_in->RSQrq + i;
+
+    blasfeo_dgecp(DCt->m, DCt->n, DCt, 0, 0, &rti_work->backup_DCt, 0, 0);
+    blasfeo_dgecp(RSQrq->m, RSQrq->n, RSQrq, 0, 0, &rti_work->backup_RSQrq, 0, 0);
+
+    config->constraints[i]->update_qp_matrices(config->constraints[i], dims->constraints[i], in->constraints[i],
+                                     opts->constraints[i], mem->constraints[i], work->constraints[i]);
+    struct blasfeo_dvec *ineq_adj =
+        config->constraints[i]->memory_get_adj_ptr(mem->constraints[i]);
+    blasfeo_dveccp(dims->nv[i], ineq_adj, 0, mem->ineq_adj + i, 0);
+
+    blasfeo_dgecp(DCt->m, DCt->n, &rti_work->backup_DCt, 0, 0, DCt, 0, 0);
+    blasfeo_dgecp(RSQrq->m, RSQrq->n, &rti_work->backup_RSQrq, 0, 0, RSQrq, 0, 0);
+}
+
+
+
 static void prepare_full_residual_computation(ocp_nlp_config *config,
     ocp_nlp_dims *dims, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *opts,
-    ocp_nlp_memory *mem, ocp_nlp_workspace *work)
+    ocp_nlp_memory *mem, ocp_nlp_sqp_rti_workspace *rti_work)
 {
+    ocp_nlp_workspace *work = rti_work->nlp_work;
     int N = dims->N;
     int *nv = dims->nv;
     int *nx = dims->nx;
     int *nu = dims->nu;
-    // int *ni = dims->ni;
+    int *ni = dims->ni;
 
     for (int i=0; i < N; i++)
     {
         // dynamics: evaluate function and adjoint
         config->dynamics[i]->compute_fun_and_adj(config->dynamics[i], dims->dynamics[i], in->dynamics[i],
                                          opts->dynamics[i], mem->dynamics[i], work->dynamics[i]);
+        struct blasfeo_dvec *dyn_fun = config->dynamics[i]->memory_get_fun_ptr(mem->dynamics[i]);
+        blasfeo_dveccp(nx[i+1], dyn_fun, 0, mem->dyn_fun + i, 0);
     }
 
     for (int i=0; i <= N; i++)
     {
         // constraints: evaluate function and adjoint
-        config->constraints[i]->update_qp_matrices(config->constraints[i], dims->constraints[i], in->constraints[i],
+        evaluate_constraints_for_residuals(config, dims, in, opts, mem, rti_work, i);
+        // constraints: residual w.r.t. bounds
+        config->constraints[i]->update_qp_vectors(config->constraints[i], dims->constraints[i], in->constraints[i],
                                          opts->constraints[i], mem->constraints[i], work->constraints[i]);
-        struct blasfeo_dvec *ineq_adj =
-            config->constraints[i]->memory_get_adj_ptr(mem->constraints[i]);
-        blasfeo_dveccp(nv[i], ineq_adj, 0, mem->ineq_adj + i, 0);
+        struct blasfeo_dvec *ineq_fun =
+            config->constraints[i]->memory_get_fun_ptr(mem->constraints[i]);
+        blasfeo_dveccp(2*ni[i], ineq_fun, 0, mem->ineq_fun + i, 0);
     }
 
 #if defined(ACADOS_WITH_OPENMP)
@@ -673,7 +741,7 @@ static void ocp_nlp_sqp_rti_feedback_step(ocp_nlp_config *config, ocp_nlp_dims *
 
     if (opts->rti_log_residuals && !opts->rti_log_only_available_residuals)
     {
-        prepare_full_residual_computation(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, nlp_work);
+        prepare_full_residual_computation(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, work);
         ocp_nlp_res_compute(dims, nlp_opts, nlp_in, nlp_out, nlp_mem->nlp_res, nlp_mem, nlp_work);
         rti_store_residuals_in_stats(opts, mem);
     }
@@ -760,8 +828,9 @@ static void as_rti_advance_problem(ocp_nlp_config *config, ocp_nlp_dims *dims, o
 
 static void level_c_prepare_residual_computation(ocp_nlp_config *config,
     ocp_nlp_dims *dims, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *opts,
-    ocp_nlp_memory *mem, ocp_nlp_workspace *work)
+    ocp_nlp_memory *mem, ocp_nlp_sqp_rti_workspace *rti_work)
 {
+    ocp_nlp_workspace *work = rti_work->nlp_work;
     int N = dims->N;
     int *nv = dims->nv;
     int *nx = dims->nx;
@@ -772,11 +841,7 @@ static void level_c_prepare_residual_computation(ocp_nlp_config *config,
     for (int i=0; i <= N; i++)
     {
         // constraints: evaluate function and adjoint
-        config->constraints[i]->update_qp_matrices(config->constraints[i], dims->constraints[i], in->constraints[i],
-                                         opts->constraints[i], mem->constraints[i], work->constraints[i]);
-        struct blasfeo_dvec *ineq_adj =
-            config->constraints[i]->memory_get_adj_ptr(mem->constraints[i]);
-        blasfeo_dveccp(nv[i], ineq_adj, 0, mem->ineq_adj + i, 0);
+        evaluate_constraints_for_residuals(config, dims, in, opts, mem, rti_work, i);
     }
 
 #if defined(ACADOS_WITH_OPENMP)
@@ -867,7 +932,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
         if (opts->rti_log_residuals && !opts->rti_log_only_available_residuals)
         {
             // NOTE: redo all residual computations after loading iterate from tmp to undo changes to memory in modules
-            prepare_full_residual_computation(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, nlp_work);
+            prepare_full_residual_computation(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, work);
         }
 
         // update QP rhs for SQP (step prim var, abs dual var)
@@ -939,7 +1004,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             if (opts->rti_log_residuals && !opts->rti_log_only_available_residuals)
             {
                 // evaluate additional functions and compute residuals
-                prepare_full_residual_computation(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, nlp_work);
+                prepare_full_residual_computation(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, work);
                 ocp_nlp_res_compute(dims, nlp_opts, nlp_in, nlp_out, nlp_mem->nlp_res, nlp_mem, nlp_work);
                 rti_store_residuals_in_stats(opts, mem);
             }
@@ -1008,7 +1073,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             if (opts->rti_log_residuals && !opts->rti_log_only_available_residuals)
             {
                 // evaluate additional functions and compute residuals
-                level_c_prepare_residual_computation(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, nlp_work);
+                level_c_prepare_residual_computation(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, work);
                 ocp_nlp_res_compute(dims, nlp_opts, nlp_in, nlp_out, nlp_mem->nlp_res, nlp_mem, nlp_work);
                 rti_store_residuals_in_stats(opts, mem);
             }
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.h b/acados/ocp_nlp/ocp_nlp_sqp_rti.h
index 1d9d100..ef4dd02 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.h
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.h
@@ -143,6 +143,10 @@ typedef struct
     ocp_qp_res *qp_res;
     ocp_qp_res_ws *qp_res_ws;
 
+    // backup of QP data, used for evaluating residuals without changing the QP
+    struct blasfeo_dmat backup_DCt;
+    struct blasfeo_dmat backup_RSQrq;
+
 } ocp_nlp_sqp_rti_workspace;
 
 //
-- 
2.43.0


From 2976c651035121827e9692696709d4bc702a25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 41/66] fix: cost expression of CONVEX_OVER_NONLINEAR costs
 takes the reference into account

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 1402b8d..d369b71 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2659,7 +2659,7 @@ class AcadosOcp:
             psi_expr = getattr(self.model, f"cost_psi_expr{suffix}")
             r_in_psi_expr = getattr(self.model, f"cost_r_in_psi_expr{suffix}")
             y_expr = getattr(self.model, f"cost_y_expr{suffix}")
-            cost_dot = ca.substitute(psi_expr, r_in_psi_expr, y_expr)
+            cost_dot = ca.substitute(psi_expr, r_in_psi_expr, y_expr - yref)
 
         else:
             raise ValueError(f"Unknown cost type {cost_type}.")
-- 
2.43.0


From 325729d73a0f0ba422e7ba082b30f44fb68013a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 42/66] fix: copy_path_cost_to_stage_0 copies the custom outer
 Hessian of CONVEX_OVER_NONLINEAR costs

---
 interfaces/acados_template/acados_template/acados_ocp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index d369b71..c583f9f 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1746,6 +1746,7 @@ class AcadosOcp:
         model.cost_expr_ext_cost_custom_hess_0 = model.cost_expr_ext_cost_custom_hess
         model.cost_psi_expr_0 = model.cost_psi_expr
         model.cost_r_in_psi_expr_0 = model.cost_r_in_psi_expr
+        model.cost_conl_custom_outer_hess_0 = model.cost_conl_custom_outer_hess
         return
 
     def translate_nls_cost_to_conl(self):
-- 
2.43.0


From 3db4c9fe59c7b236b5660c5c58609dfe8e45964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 43/66] fix: AUTO cost type falls back to EXTERNAL where no
 least squares form exists, works for MX

---
 .../acados_template/acados_ocp.py             | 41 +++++++++++--------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index c583f9f..6fcfdbd 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2400,7 +2400,7 @@ class AcadosOcp:
     def detect_cost_type(self, model: AcadosModel, cost: AcadosOcpCost, dims: AcadosOcpDims, stage_type: str, verbose: bool = True) -> None:
         """
         If the cost type of a stage (initial, path or terminal) is set to AUTO, try to reformulate it as a LINEAR_LS cost.
-        If that is not possible (cost is not quadratic or includes parameters), use the EXTERNAL cost type.
+        If that is not possible (cost is not a strictly convex linear least squares cost in the variables it depends on or includes parameters), use the EXTERNAL cost type.
         """
         # Extract model variables
         x = model.x
@@ -2427,24 +2427,28 @@ class AcadosOcp:
             print('expr_cost =', expr_cost)
             raise ValueError("Cost type detection requires definition of cost term as CasADi SX or MX.")
 
-        if ca.is_quadratic(expr_cost, x) and ca.is_quadratic(expr_cost, u) and ca.is_quadratic(expr_cost, z) \
+        xuz = ca.vertcat(x, u, z)
+        is_lls = ca.is_quadratic(expr_cost, xuz) \
                 and not any(ca.which_depends(expr_cost, p)) and not any(ca.which_depends(expr_cost, model.p_global)) \
-                and not any(ca.which_depends(expr_cost, model.t)):
+                and not any(ca.which_depends(expr_cost, model.t))
+
+        if is_lls:
 
             if expr_cost.is_zero():
                 if verbose:
                     print('Cost function is zero -> Reformulating as LINEAR_LS cost.')
                 ny = 0
-                Vx, Vu, Vz, W, y_ref, y = [], [], [], [], [], []
+                Vx, Vu, Vz = np.zeros((ny, nx)), np.zeros((ny, nu)), np.zeros((ny, nz))
+                W, y_ref, y = np.zeros((ny, ny)), np.zeros((ny,)), []
             else:
                 cost_fun = ca.Function('cost_fun', [x, u, z], [expr_cost])
-                dummy = ca.SX.sym('dummy', 1, 1)
 
                 if verbose:
                     print('Cost function is quadratic -> Reformulating as LINEAR_LS cost.')
 
-                Hxuz_fun = ca.Function('Hxuz_fun', [dummy], [ca.hessian(expr_cost, ca.vertcat(x, u, z))[0]])
-                H_xuz = np.array(Hxuz_fun(0))
+                derivatives_fun = ca.Function('derivatives_fun', [x, u, z], ca.hessian(expr_cost, xuz))
+                H_xuz, grad_xuz_0 = derivatives_fun(np.zeros((nx, 1)), np.zeros((nu, 1)), np.zeros((nz, 1)))
+                H_xuz, grad_xuz_0 = H_xuz.full(), grad_xuz_0.full().flatten()
 
                 xuz_idx = []
                 for i in range(nx + nu + nz):
@@ -2480,10 +2484,12 @@ class AcadosOcp:
                     W[i, :] = H_xuz[idx, xuz_idx] / 2
                     i += 1
 
-                xuz = ca.vertcat(x, u, z)
-                y = xuz[xuz_idx]
-                jac_fun = ca.Function('jac_fun', [y], [ca.jacobian(expr_cost, y).T])
-                y_ref = np.linalg.solve(W, -0.5 * np.array(jac_fun(np.zeros((ny, 1)))))
+                # a valid weighting matrix is needed, see verify_weighting_matrix
+                if ny == 0 or np.min(np.linalg.eigvalsh(W)) <= 1e-10 * np.max(np.abs(W)):
+                    is_lls = False
+
+            if is_lls and ny > 0:
+                y_ref = np.linalg.solve(W, -0.5 * grad_xuz_0[xuz_idx])
 
                 y = -y_ref + Vx @ x + Vu @ u
                 if nz > 0:
@@ -2491,7 +2497,7 @@ class AcadosOcp:
 
                 lls_cost_fun = ca.Function('lls_cost_fun', [x, u, z], [ca.mtimes(y.T, ca.mtimes(W, y))])
 
-                rel_err_tol = 1e-13
+                rel_err_tol = 1e-10
                 for jj in range(5):
                     x0 = np.random.rand(nx)
                     u0 = np.random.rand(nu)
@@ -2500,14 +2506,13 @@ class AcadosOcp:
                     val1 = np.array(lls_cost_fun(x0, u0, z0))
                     val2 = np.array(cost_fun(x0, u0, z0))
                     diff_eval = np.abs(val1 - val2)
-                    rel_error = diff_eval / np.maximum(np.abs(val1), np.abs(val2))
-                    if rel_error > rel_err_tol:
-                        print(f'Something went wrong when reformulating with linear least square cost, '
-                            f'got relative error {rel_error:.2e}, should be < {rel_err_tol:.2e}')
-                        raise RuntimeError('Reformulation error')
+                    if np.any(diff_eval > rel_err_tol * np.maximum(1.0, np.maximum(np.abs(val1), np.abs(val2)))):
+                        # e.g. a constant or linear terms in directions without curvature
+                        is_lls = False
 
                 W = 2 * W
 
+        if is_lls:
             # Extract output
             if stage_type == 'terminal':
                 if np.any(Vu):
@@ -2549,7 +2554,7 @@ class AcadosOcp:
 
         else:
             if verbose:
-                print('\n\nCost function is not quadratic or includes parameters -> Using external cost\n\n')
+                print('\n\nCost function is not a convex quadratic in linear least squares form or includes parameters -> Using external cost\n\n')
             if stage_type == 'terminal':
                 cost.cost_type_e = 'EXTERNAL'
             elif stage_type == 'path':
-- 
2.43.0


From 6b35da7d563ea072f23c2b8001ac9f7edf052591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 44/66] fix: translate_cost_to_external_cost with symbolic MX
 weighting matrices

---
 .../acados_template/acados_template/acados_ocp.py     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 6fcfdbd..63faa22 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -63,6 +63,11 @@ from .casadi_function_generation import (
     generate_c_code_constraint
 )
 
+def sparsify_weight(W):
+    """Drop structural zeros of a weighting matrix, symbolic MX matrices are returned unchanged."""
+    return W if isinstance(W, ca.MX) else ca.sparsify(W)
+
+
 class AcadosOcp:
     """
     Class containing the full description of the optimal control problem.
@@ -1983,19 +1988,19 @@ class AcadosOcp:
             res += ca.sparsify(Vz) @ z
         res -= yref
 
-        return 0.5 * (res.T @ ca.sparsify(W) @ res)
+        return 0.5 * (res.T @ sparsify_weight(W) @ res)
 
     @staticmethod
     def __translate_nls_cost_to_external_cost(y_expr, yref, W):
         res = y_expr - yref
-        return 0.5 * (res.T @ ca.sparsify(W) @ res)
+        return 0.5 * (res.T @ sparsify_weight(W) @ res)
 
     @staticmethod
     def __get_gn_hessian_expression_from_nls_cost(y_expr, yref, W, x, u):
         res = y_expr - yref
         ux = ca.vertcat(u, x)
         inner_jac = ca.jacobian(res, ux)
-        gn_hess = inner_jac.T @ ca.sparsify(W) @ inner_jac
+        gn_hess = inner_jac.T @ sparsify_weight(W) @ inner_jac
         return gn_hess
 
     @staticmethod
-- 
2.43.0


From c5b6e3a1316073c1c1dc27f6f42c10c26191e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 45/66] fix: two-sided Huber penalty has the requested weight
 as Hessian in the quadratic region

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 63faa22..50c298d 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2183,7 +2183,7 @@ class AcadosOcp:
             center = lower_bound + 0.5 * width
             constr_expr = 2 * (constr_expr - center) / width
             penalty, _, penalty_hess, penalty_hess_xgn = \
-                symmetric_huber_penalty(new_residual, delta=huber_delta, w=weight*width**2, min_hess=min_hess)
+                symmetric_huber_penalty(new_residual, delta=huber_delta, w=weight*(0.5*width)**2, min_hess=min_hess)
 
         elif upper_bound is not None:
             constr_expr -= upper_bound
-- 
2.43.0


From a1c7bfaf438e631385c884a975e8de891016f106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 46/66] fix: L2 penalties on EXTERNAL costs do not extend the
 least squares residual and reference

---
 .../acados_template/acados_ocp.py               | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 50c298d..ca7834f 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2033,16 +2033,17 @@ class AcadosOcp:
 
         casadi_symbol = self.model.get_casadi_symbol()
 
-        # append zero reference
-        existing_yref = getattr(self.cost, yref_attr)
-        new_ref = np.zeros(1)
-        setattr(self.cost, yref_attr, np.concatenate((existing_yref, new_ref)))
+        cost_type = getattr(self.cost, cost_type_attr)
 
-        # append violation expression to model cost_y_expr
-        existing_cost_y = getattr(self.model, cost_y_expr_attr)
-        setattr(self.model, cost_y_expr_attr, ca.vertcat(existing_cost_y, violation_expr))
+        if cost_type in ("NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"):
+            # append zero reference
+            existing_yref = getattr(self.cost, yref_attr)
+            new_ref = np.zeros(1)
+            setattr(self.cost, yref_attr, np.concatenate((existing_yref, new_ref)))
 
-        cost_type = getattr(self.cost, cost_type_attr)
+            # append violation expression to model cost_y_expr
+            existing_cost_y = getattr(self.model, cost_y_expr_attr)
+            setattr(self.model, cost_y_expr_attr, ca.vertcat(existing_cost_y, violation_expr))
 
         if cost_type == "NONLINEAR_LS":
             current_W = getattr(self.cost, W_attr)
-- 
2.43.0


From e9c2e63c27a5a186e2f37bc5eacb17c8411766d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 47/66] fix: L2 penalties extend the custom outer Hessian of
 CONVEX_OVER_NONLINEAR costs

---
 interfaces/acados_template/acados_template/acados_ocp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index ca7834f..cbbc93b 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2030,6 +2030,7 @@ class AcadosOcp:
         cost_r_in_psi_attr = f'cost_r_in_psi_expr{suffix}'
         cost_psi_attr = f'cost_psi_expr{suffix}'
         cost_ext_attr = f'cost_expr_ext_cost{suffix}'
+        cost_conl_hess_attr = f'cost_conl_custom_outer_hess{suffix}'
 
         casadi_symbol = self.model.get_casadi_symbol()
 
@@ -2061,6 +2062,11 @@ class AcadosOcp:
             else:
                 setattr(self.model, cost_psi_attr, new_term)
 
+            # extend custom outer Hessian, if present
+            current_outer = getattr(self.model, cost_conl_hess_attr)
+            if not is_empty(current_outer):
+                setattr(self.model, cost_conl_hess_attr, ca.diagcat(current_outer, weight))
+
         elif cost_type == "EXTERNAL":
             current_ext_cost = getattr(self.model, cost_ext_attr)
             new_cost_term = .5 * weight * violation_expr**2
-- 
2.43.0


From 67559e2dca531466cf98c21d7b71b1dc1589aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 48/66] fix: add_linear_constraint can be called repeatedly

---
 interfaces/acados_template/acados_template/acados_ocp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index cbbc93b..c7ec077 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2251,10 +2251,10 @@ class AcadosOcp:
             self.constraints.lg = lg
             self.constraints.ug = ug
         else:
-            self.constraints.C = ca.vertcat(self.constraints.C, C)
-            self.constraints.D = ca.vertcat(self.constraints.D, D)
-            self.constraints.lg = ca.vertcat(self.constraints.lg, lg)
-            self.constraints.ug = ca.vertcat(self.constraints.ug, ug)
+            self.constraints.C = np.concatenate((self.constraints.C, C))
+            self.constraints.D = np.concatenate((self.constraints.D, D))
+            self.constraints.lg = np.concatenate((self.constraints.lg, lg))
+            self.constraints.ug = np.concatenate((self.constraints.ug, ug))
 
         return
 
-- 
2.43.0


From 356690604354a54a76af44b93f5f140a40210975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 49/66] fix: translate_to_feasibility_problem penalizes linear
 constraints

---
 .../acados_template/acados_template/acados_ocp.py   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index c7ec077..3996f71 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2307,6 +2307,15 @@ class AcadosOcp:
             (model.con_h_expr, constraints.lh, constraints.uh),
         ]
 
+        linear_constr_list = []
+        if constraints.lg.size > 0:
+            # linear constraints are also imposed at the initial stage
+            linear_constr_expr = ca.DM(constraints.C) @ model.x
+            if casadi_length(model.u) > 0:
+                linear_constr_expr += ca.DM(constraints.D) @ model.u
+            linear_constr_list.append((linear_constr_expr, constraints.lg, constraints.ug))
+        expr_bound_list += linear_constr_list
+
         if casadi_length(model.con_phi_expr) > 0:
             phi_o_r_expr = ca.substitute(model.con_phi_expr, model.con_r_in_phi, model.con_r_expr)
             expr_bound_list.append((phi_o_r_expr, constraints.lphi, constraints.uphi))
@@ -2321,6 +2330,8 @@ class AcadosOcp:
             (model.x[constraints.idxbx_e], constraints.lbx_e, constraints.ubx_e),
             (model.con_h_expr_e, constraints.lh_e, constraints.uh_e),
         ]
+        if constraints.lg_e.size > 0:
+            expr_bound_list_e.append((ca.DM(constraints.C_e) @ model.x, constraints.lg_e, constraints.ug_e))
 
         if casadi_length(model.con_phi_expr_e) > 0:
             phi_o_r_expr_e = ca.substitute(model.con_phi_expr_e, model.con_r_in_phi_e, model.con_r_expr_e)
@@ -2336,7 +2347,7 @@ class AcadosOcp:
         expr_bound_list_0 = [
             (model.u[constraints.idxbu], constraints.lbu, constraints.ubu),
             (model.con_h_expr_0, constraints.lh_0, constraints.uh_0),
-        ]
+        ] + linear_constr_list
 
         # initial state constraint
         if (keep_x0 or parametric_x0) and not constraints.has_x0:
-- 
2.43.0


From 510c07741a6cdd56c720f31f220aff6d3fec0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 50/66] fix: loading an AcadosOcp from JSON keeps x0 status,
 time grid and cost scaling

---
 .../acados_template/acados_template/acados_ocp_constraints.py  | 3 +++
 .../acados_template/acados_template/acados_ocp_options.py      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_constraints.py b/interfaces/acados_template/acados_template/acados_ocp_constraints.py
index 93c208b..47a08d4 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_constraints.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_constraints.py
@@ -1274,4 +1274,7 @@ class AcadosOcpConstraints:
                 except Exception as e:
                     Exception("Failed to load attribute {attr} from dictionary:\n" + repr(e))
 
+        # has_x0 is read-only
+        constraints.__has_x0 = bool(dict.get("has_x0", False))
+
         return constraints
diff --git a/interfaces/acados_template/acados_template/acados_ocp_options.py b/interfaces/acados_template/acados_template/acados_ocp_options.py
index f8bada2..a4f8be4 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_options.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_options.py
@@ -32,6 +32,7 @@ import os
 import warnings, inspect
 
 from deprecated.sphinx import deprecated
+import numpy as np
 from .utils import check_if_nparray_and_flatten, use_int_or_cast_to_1d_nparray
 
 INTEGRATOR_TYPES = ('ERK', 'IRK', 'GNSF', 'DISCRETE', 'LIFTED_IRK')
@@ -2366,6 +2367,8 @@ class AcadosOcpOptions:
                 try:
                     # check whether value is not the empty list
                     if not (isinstance(value, list) and not value):
+                        if attr in ["time_steps", "shooting_nodes", "cost_scaling"]:
+                            value = np.array(value)
                         setattr(options, attr, value)
                 except Exception as e:
                     ValueError("Failed to load attribute {attr} from dictionary:\n" + repr(e))
-- 
2.43.0


From 14181fe5843b99c5f22bd5bbe1de95db1fea4489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 51/66] fix: AcadosSimSolver with build=False does not load
 code of another formulation

---
 .../acados_template/acados_template/acados_sim_solver.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_sim_solver.py b/interfaces/acados_template/acados_template/acados_sim_solver.py
index fc611f6..7f49214 100644
--- a/interfaces/acados_template/acados_template/acados_sim_solver.py
+++ b/interfaces/acados_template/acados_template/acados_sim_solver.py
@@ -152,7 +152,7 @@ class AcadosSimSolver:
 
         sim.make_consistent()
 
-        if generate is False and check_reuse_possible:
+        if check_reuse_possible and (not generate or not build):
             reuse_possible = AcadosSimSolver.is_code_reuse_possible(sim, verbose=verbose)
             if not reuse_possible:
                 generate = True
@@ -201,7 +201,7 @@ class AcadosSimSolver:
             self.__T = sim.solver_options.T
             sim.make_consistent()
 
-        if isinstance(sim, AcadosSim) and generate is False and check_reuse_possible:
+        if isinstance(sim, AcadosSim) and check_reuse_possible and (not generate or not build):
             reuse_possible = AcadosSimSolver.is_code_reuse_possible(sim, verbose=verbose)
             if not reuse_possible:
                 generate = True
-- 
2.43.0


From 7d19674ccb4f6a3b2bc7eb242ba6dc4ff221afa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 52/66] fix: solvers added to a batch keep the save_p_global
 setting

---
 .../acados_template/acados_template/acados_ocp_batch_solver.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
index 986cd92..e921347 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
@@ -678,6 +678,7 @@ class AcadosOcpBatchSolver():
                                                     build=False,
                                                     generate=False,
                                                     verbose=self.verbose if n==0 else False,
+                                                    save_p_global=template_solver.save_p_global,
                                                     check_reuse_possible=False
                                                     )
                                         for n in range(n_missing)])
-- 
2.43.0


From 2196b3b8ecea949590e149211af76c6aa9d81c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 53/66] fix: convex-over-nonlinear path constraints in
 multi-phase problems

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 22de812..a42ff4d 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2326,9 +2326,9 @@ void {{ name }}_acados_create_setup_nlp_in({{ name }}_solver_capsule* capsule, i
     for (int i = {{ cost_start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
     {
         i_fun = i - {{ cost_start_idx[jj] }};
-        ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i, "nl_constr_phi_o_r_fun", &capsule->phi_constraint_fun[i_fun]);
+        ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i, "nl_constr_phi_o_r_fun", &capsule->phi_constraint_fun_{{ jj }}[i_fun]);
         ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i,
-                                      "nl_constr_phi_o_r_fun_phi_jac_ux_z_phi_hess_r_jac_ux", &capsule->phi_constraint_fun_jac_hess[i_fun]);
+                                      "nl_constr_phi_o_r_fun_phi_jac_ux_z_phi_hess_r_jac_ux", &capsule->phi_constraint_fun_jac_hess_{{ jj }}[i_fun]);
     }
 {%- endif %}
 {%- endfor %}{# phases loop !#}
-- 
2.43.0


From 27d048c6e99ac5582f40b6bd76e60d906c9a0c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 54/66] fix: GNSF structure detection for the phases of
 multi-phase problems

---
 .../acados_template/acados_multiphase_ocp.py               | 2 +-
 .../acados_template/acados_template/acados_ocp_solver.py   | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
index 29b5232..97abce5 100644
--- a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
@@ -576,7 +576,7 @@ class AcadosMultiphaseOcp:
                     if isinstance(item, (AcadosOcpDims, AcadosOcpConstraints, AcadosOcpCost)):
                         ocp_dict[key][i] = format_class_dict(dict(item.__dict__))
                     if isinstance(item, (AcadosModel,)):
-                        ocp_dict[key][i] = item.to_dict()
+                        ocp_dict[key][i] = format_class_dict(item.to_dict())
 
         ocp_dict = format_class_dict(ocp_dict)
 
diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index be5b42d..079faf9 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -141,7 +141,12 @@ class AcadosOcpSolver:
         ocp.make_consistent(verbose=verbose)
 
         # module dependent post processing
-        if ocp.solver_options.integrator_type == 'GNSF':
+        if isinstance(ocp, AcadosMultiphaseOcp):
+            for i in range(ocp.n_phases):
+                # a GNSF model provided by the user is kept
+                if ocp.mocp_opts.integrator_type[i] == 'GNSF' and ocp.model[i].gnsf_model is None:
+                    detect_gnsf_structure(ocp.model[i], ocp.phases_dims[i])
+        elif ocp.solver_options.integrator_type == 'GNSF':
             if 'gnsf_model' in ocp.__dict__:
                 raise ValueError("AcadosSim should not have gnsf_model, loading GNSF model functions from json is deprecated.")
             elif ocp.model.gnsf_model is not None:
-- 
2.43.0


From 0394ce2738d0d606ebbd94e75a369527ddf83b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:38 +0000
Subject: [PATCH 55/66] fix: default parameters of multi-phase problems at the
 terminal node and with few nonzeros

---
 .../c_templates_tera/acados_multi_solver.in.c                | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index a42ff4d..efc978c 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -884,6 +884,8 @@ void {{ name }}_acados_create_set_default_parameters({{ name }}_solver_capsule*
     {% if parameter_values_nnz[jj] / phases_dims[jj].np > sparsity_threshold %}
     memcpy(p, p_init_{{ jj }}, NP_{{ jj }}*sizeof(double));
     {%- else %}
+    // remove values of previous phases
+    memset(p, 0, NP_{{ jj }}*sizeof(double));
     {%- for item in parameter_values[jj] %}
         {%- if item != 0 %}
     p[{{ loop.index0 }}] = {{ item }};
@@ -891,7 +893,8 @@ void {{ name }}_acados_create_set_default_parameters({{ name }}_solver_capsule*
     {%- endfor %}
     {%- endif %}
 
-    for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++) {
+    {#- the terminal node belongs to the last phase #}
+    for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}{% if loop.last %} + 1{% endif %}; i++) {
         {{ name }}_acados_update_params(capsule, i, p, NP_{{ jj }});
     }
     {%- endif %}{# if phases_dims[jj].np #}
-- 
2.43.0


From 19bd7853212cafd45a6a2ca59ca03a798cfd3db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 56/66] fix: several GNSF phases in one multi-phase problem

---
 .../c_templates_tera/acados_multi_solver.in.c | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index efc978c..a32364c 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -400,19 +400,19 @@ ocp_nlp_dims* {{ name }}_acados_create_setup_dimensions({{ name }}_solver_capsul
 
   {%- if mocp_opts.integrator_type[jj] == "GNSF" -%}
     // GNSF specific dimensions
-    int gnsf_nx1 = {{ model[jj].gnsf_model.dims.nx1 }};
-    int gnsf_nz1 = {{ model[jj].gnsf_model.dims.nz1 }};
-    int gnsf_nout = {{ model[jj].gnsf_model.dims.nout }};
-    int gnsf_ny = {{ model[jj].gnsf_model.dims.ny }};
-    int gnsf_nuhat = {{ model[jj].gnsf_model.dims.nuhat }};
+    int gnsf_nx1_{{ jj }} = {{ model[jj].gnsf_model.dims.nx1 }};
+    int gnsf_nz1_{{ jj }} = {{ model[jj].gnsf_model.dims.nz1 }};
+    int gnsf_nout_{{ jj }} = {{ model[jj].gnsf_model.dims.nout }};
+    int gnsf_ny_{{ jj }} = {{ model[jj].gnsf_model.dims.ny }};
+    int gnsf_nuhat_{{ jj }} = {{ model[jj].gnsf_model.dims.nuhat }};
 
     for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
     {
-        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nx1", &gnsf_nx1);
-        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nz1", &gnsf_nz1);
-        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nout", &gnsf_nout);
-        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_ny", &gnsf_ny);
-        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nuhat", &gnsf_nuhat);
+        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nx1", &gnsf_nx1_{{ jj }});
+        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nz1", &gnsf_nz1_{{ jj }});
+        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nout", &gnsf_nout_{{ jj }});
+        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_ny", &gnsf_ny_{{ jj }});
+        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nuhat", &gnsf_nuhat_{{ jj }});
     }
   {%- endif %}
 
-- 
2.43.0


From e4148989a8db6b1b8b22c6f59a1feb929c35ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:32 +0000
Subject: [PATCH 57/66] fix: values of new stages and validation in
 AcadosParamManager

---
 .../acados_template/acados_param_manager.py   | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_param_manager.py b/interfaces/acados_template/acados_template/acados_param_manager.py
index 11183c8..97edd5a 100644
--- a/interfaces/acados_template/acados_template/acados_param_manager.py
+++ b/interfaces/acados_template/acados_template/acados_param_manager.py
@@ -67,7 +67,7 @@ class AcadosParamManager:
 
         for p in params:
             p.value = cast_to_2d_nparray(p.value, p.name)
-            self._param_values[0][p.name] = p.value
+            self._param_values[0][p.name] = deepcopy(p.value)
             self._param_expressions[p.name] = symbolics(p.name, self._param_values[0][p.name].shape)
 
         # copy default values to all stages
@@ -90,16 +90,12 @@ class AcadosParamManager:
         if not isinstance(N_horizon, int) or N_horizon < 0:
             raise ValueError("N_horizon must be a non-negative integer")
 
-        # If increasing, add new stages with copies stage 0
-        old_N = len(self._param_values) - 1
-        if N_horizon > old_N:
-            for _ in range(N_horizon - old_N):
-                self._param_values.append(deepcopy(self._param_values[0]))
+        # drop stages beyond the horizon
+        del self._param_values[N_horizon + 1:]
 
-        # Initialize with default values
-        for p in self._params:
-            for n in range(self._N_horizon, N_horizon):
-                self._param_values[n][p.name] = p.value
+        # add new stages with default values
+        while len(self._param_values) < N_horizon + 1:
+            self._param_values.append(OrderedDict((p.name, deepcopy(p.value)) for p in self._params))
 
         self._N_horizon = N_horizon
 
@@ -136,6 +132,10 @@ class AcadosParamManager:
         """
         if stage > self._N_horizon or stage < 0:
             raise IndexError(f"Stage index {stage} out of bounds for horizon length {self._N_horizon}.")
+        if name not in self._param_expressions:
+            raise KeyError(f"Unknown parameter {name}, expected one of {list(self._param_expressions)}.")
+        if np.size(value) != self._param_expressions[name].numel():
+            raise ValueError(f"Value of parameter {name} has size {np.size(value)}, expected {self._param_expressions[name].numel()}.")
         self._param_values[stage][name] = value
 
 
-- 
2.43.0


From e41624305a41325bb615d271bffd7e2b857abc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:49 +0000
Subject: [PATCH 58/66] fix: evaluator, cost state, constraint detection and
 control horizon of mpc_utils

---
 .../acados_template/mpc_utils.py              | 348 ++++++++----------
 1 file changed, 153 insertions(+), 195 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index baa353b..18a2a12 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -67,14 +67,12 @@ class AcadosCostConstraintEvaluator:
 
         self.__ocp = deepcopy(ocp)
 
-        model = ocp.model
-        constraints = ocp.constraints
         dims = ocp.dims
         if casadi_length(ocp.model.z) > 0:
             raise NotImplementedError(
                 "AcadosCostConstraintEvaluatator: not implemented for models with z.")
 
-        self.__parameter_values = np.tile(ocp.parameter_values, (ocp.dims.np, ocp.dims.N))
+        self.__parameter_values = np.tile(ocp.parameter_values.reshape(-1, 1), (1, ocp.dims.N))
         self.__p_global_values = ocp.p_global_values
 
         self.cost_scaling = ocp.solver_options.cost_scaling
@@ -99,108 +97,85 @@ class AcadosCostConstraintEvaluator:
             [cost_expr_e]
         )
 
-        # constraints
-        bu_expr = model.u[constraints.idxbu]
-        bx_expr = model.x[constraints.idxbx]
-        bx_expr_e = model.x[constraints.idxbx_e]
-
-        if not is_empty(constraints.C):
-            g_expr = constraints.C @ model.x + constraints.D @ model.u
-        else:
-            g_expr = ca.DM.zeros(0, 1)
-
-        if not is_empty(constraints.C_e):
-            g_expr_e = constraints.C_e @ model.x
-        else:
-            g_expr_e = ca.DM.zeros(0, 1)
-
-        h_expr = model.con_h_expr
-        h_expr_e = model.con_h_expr_e
-
-        if ocp.dims.nphi > 0:
-            raise NotImplementedError("AcadosCostConstraintEvaluatator: not implemented for nontrivial phi.")
-
-        constraint_args = [bu_expr, bx_expr, g_expr, h_expr]
-        constraint_args_e = [bx_expr_e, g_expr_e, h_expr_e]
-
-        constraint_expr = ca.vertcat(*constraint_args)
-        upper_bound = ca.vertcat(
-            constraints.ubu,
-            constraints.ubx,
-            constraints.ug,
-            constraints.uh,
-            constraints.uphi
-        )
-        lower_bound = ca.vertcat(
-            constraints.lbu,
-            constraints.lbx,
-            constraints.lg,
-            constraints.lh,
-            constraints.lphi
-        )
-
-        constraint_expr_e = ca.vertcat(*constraint_args_e)
-        upper_bound_e = ca.vertcat(
-            constraints.ubx_e,
-            constraints.ug_e,
-            constraints.uh_e,
-            constraints.uphi_e
-        )
-        lower_bound_e = ca.vertcat(
-            constraints.lbx_e,
-            constraints.lg_e,
-            constraints.lh_e,
-            constraints.lphi_e
-        )
-
-        lower_violation = ca.fmax(lower_bound - constraint_expr, 0)
-        upper_violation = ca.fmax(constraint_expr - upper_bound, 0)
-
-        lower_violation_e = ca.fmax(lower_bound_e - constraint_expr_e, 0)
-        upper_violation_e = ca.fmax(constraint_expr_e - upper_bound_e, 0)
-
-        slack_indices = np.concatenate((
-            constraints.idxsbu,
-            constraints.idxsbx + dims.nbu,
-            constraints.idxsg + dims.nbu + dims.nbx,
-            constraints.idxsh + dims.nbu + dims.nbx + dims.ng,
-            constraints.idxsphi + dims.nbu + dims.nbx + dims.ng + dims.nh
-        ))
-
-        slack_indices_e = np.concatenate((
-            constraints.idxsbx_e,
-            constraints.idxsg_e + dims.nbx_e,
-            constraints.idxsh_e + dims.nbx_e + dims.ng_e,
-            constraints.idxsphi_e + dims.nbx_e + dims.ng_e + dims.nh_e
-        ))
-
-        self.nonslacked_indices = np.setdiff1d(
-            np.arange(constraint_expr.shape[0]),
-            slack_indices
-        )
-
-        self.nonslacked_indices_e = np.setdiff1d(
-            np.arange(constraint_expr_e.shape[0]),
-            slack_indices_e
+        # the cost of the first node of the OCP might be different
+        self.initial_cost_fun = ca.Function(
+            'cost_fun_0',
+            cost_fun_args,
+            [ocp.get_initial_cost_expression()]
         )
 
-        lower_slack_expression = lower_violation[slack_indices]
-        upper_slack_expression = upper_violation[slack_indices]
-
-        lower_slack_expression_e = lower_violation_e[slack_indices_e]
-        upper_slack_expression_e = upper_violation_e[slack_indices_e]
+        # constraints
+        if max(dims.nphi_0, dims.nphi, dims.nphi_e) > 0:
+            raise NotImplementedError("AcadosCostConstraintEvaluatator: not implemented for nontrivial phi.")
 
-        self.constraint_function = ca.Function(
-            'constraint_function',
-            cost_fun_args,
-            [lower_violation, upper_violation, lower_slack_expression, upper_slack_expression]
-        )
+        self.constraint_function, self.nonslacked_indices = \
+            self.__setup_constraint_function('constraint_function', cost_fun_args, '')
+        self.constraint_function_0, self.nonslacked_indices_0 = \
+            self.__setup_constraint_function('constraint_function_0', cost_fun_args, '_0')
+        self.constraint_function_e, self.nonslacked_indices_e = \
+            self.__setup_constraint_function('constraint_function_e', cost_fun_args_e, '_e')
 
-        self.constraint_function_e = ca.Function(
-            'constraint_function_e',
-            cost_fun_args_e,
-            [lower_violation_e, upper_violation_e, lower_slack_expression_e, upper_slack_expression_e]
+    def __setup_constraint_function(self, name: str, args: list, suffix: str):
+        """
+        Create the function evaluating the lower and upper violations and the slacks of the constraints
+        at the initial ('_0'), path ('') or terminal ('_e') nodes.
+        Returns the function and the indices of the constraints that are not slacked.
+        """
+        model = self.__ocp.model
+        constraints = self.__ocp.constraints
+        # bounds on u and linear constraints are shared by initial and path nodes
+        suffix_g = '_e' if suffix == '_e' else ''
+
+        def entry(field, sfx):
+            return np.array(getattr(constraints, field + sfx)).reshape(-1)
+
+        def select(expr, idx):
+            return ca.vertcat(*[expr[int(i)] for i in idx])
+
+        expressions, lower, upper, slack_indices = [], [], [], []
+
+        def add(expr, field, sfx, slacked=True):
+            offset = sum(len(lb) for lb in lower)
+            expressions.append(expr)
+            lower.append(entry('l' + field, sfx))
+            upper.append(entry('u' + field, sfx))
+            if slacked:
+                slack_indices.extend(int(i) + offset for i in entry('idxs' + field, sfx))
+
+        if suffix != '_e':
+            add(select(model.u, entry('idxbu', '')), 'bu', '')
+        add(select(model.x, entry('idxbx', suffix)), 'bx', suffix, slacked=suffix != '_0')
+        if len(entry('lg', suffix_g)) > 0:
+            g_expr = getattr(constraints, 'C' + suffix_g) @ model.x
+            if suffix != '_e':
+                g_expr += constraints.D @ model.u
+            add(g_expr, 'g', suffix_g)
+        if len(entry('lh', suffix)) > 0:
+            add(getattr(model, 'con_h_expr' + suffix), 'h', suffix)
+
+        expr = ca.vertcat(*expressions)
+        if is_empty(expr):
+            expr = ca.DM.zeros(0, 1)
+        lower_violation = ca.fmax(np.concatenate(lower) - expr, 0)
+        upper_violation = ca.fmax(expr - np.concatenate(upper), 0)
+
+        function = ca.Function(
+            name,
+            args,
+            [lower_violation, upper_violation,
+             select(lower_violation, slack_indices), select(upper_violation, slack_indices)]
         )
+        nonslacked_indices = np.setdiff1d(np.arange(expr.shape[0]), slack_indices).astype(int)
+        return function, nonslacked_indices
+
+    @staticmethod
+    def __slack_cost(zl, Zl, zu, Zu, lower_slack, upper_slack) -> float:
+        """penalty of the slacks, which are given as CasADi DM vectors"""
+        cost = 0.
+        for z, Z, slack in ((zl, Zl, lower_slack.full().flatten()), (zu, Zu, upper_slack.full().flatten())):
+            if slack.size > 0:
+                cost += np.dot(z, slack) + 0.5 * np.dot(Z, slack * slack)
+        return float(cost)
 
     @property
     def parameter_values(self):
@@ -291,29 +266,19 @@ class AcadosCostConstraintEvaluator:
                                      parameter_values,
                                      p_global_values))
         violation_hard_constraints = np.concatenate(
-            (lower_violation[self.nonslacked_indices], upper_violation[self.nonslacked_indices]))
+            (lower_violation.full()[self.nonslacked_indices], upper_violation.full()[self.nonslacked_indices]))
 
         # evaluate cost of soft constraints
-        lower_slack_cost, upper_slack_cost = 0.,0.
-
-        if self.__ocp.cost.Zl.size > 0:
-            lower_slack_cost += 0.5 * self.__ocp.cost.Zl @ (lower_slack.full() * lower_slack.full())
-        if self.__ocp.cost.zl.size > 0:
-            lower_slack_cost += self.__ocp.cost.zl @ lower_slack.full()
-
-        if self.__ocp.cost.Zu.size > 0:
-            upper_slack_cost += 0.5 * self.__ocp.cost.Zu @ (upper_slack.full()* upper_slack.full())
-        if self.__ocp.cost.zu.size > 0:
-            upper_slack_cost += self.__ocp.cost.zu @ upper_slack.full()
-
-        slack_cost = (lower_slack_cost + upper_slack_cost) * self.cost_scaling[step]
+        cost_params = self.__ocp.cost
+        slack_cost = self.__slack_cost(cost_params.zl, cost_params.Zl, cost_params.zu, cost_params.Zu,
+                                       lower_slack, upper_slack) * self.cost_scaling[step]
         cost = cost_without_slacks + slack_cost
 
         # evaluate sum
         result = {
             'cost': cost.item(),
             'cost_without_slacks': cost_without_slacks.item(),
-            'cost_slacks': slack_cost.item(),
+            'cost_slacks': slack_cost,
             'violation_soft_constraints': np.concatenate((lower_slack.full(), upper_slack.full())),
             'violation_hard_constraints': violation_hard_constraints,
         }
@@ -332,58 +297,29 @@ class AcadosCostConstraintEvaluator:
         @param p_global: global parameter vector used for evaluation (optional)
         """
         parameter_values, p_global_values = self._get_check_parameters(p, p_global)
-        cost = 0
-
-        # the cost on the first step is different in the OCP
-        # TODO: this is not correct, since the cost on the first step might be different!
-        step = 0
-        result = self.evaluate(acados_ocp_iterate.x_traj[0], acados_ocp_iterate.u_traj[0], step=step)
-        cost += result['cost_without_slacks']
-        step += 1
-
-        for x_traj, u_traj in zip(acados_ocp_iterate.x_traj[1:], acados_ocp_iterate.u_traj[1:]):
-            result = self.evaluate(x_traj, u_traj, step=step)
+        cost_params = self.__ocp.cost
+
+        # the cost and the constraints at the first node might be different
+        x_0, u_0 = acados_ocp_iterate.x[0], acados_ocp_iterate.u[0]
+        args_0 = [x_0, u_0, parameter_values[:, 0] if len(parameter_values) > 0 else parameter_values, p_global_values]
+        _, _, lower_slack_0, upper_slack_0 = self.constraint_function_0(*args_0)
+        cost = self.cost_scaling[0] * (
+            float(self.initial_cost_fun(*args_0)) +
+            self.__slack_cost(cost_params.zl_0, cost_params.Zl_0, cost_params.zu_0, cost_params.Zu_0,
+                              lower_slack_0, upper_slack_0))
+
+        for step in range(1, self.__ocp.dims.N):
+            result = self.evaluate(acados_ocp_iterate.x[step], acados_ocp_iterate.u[step], step=step, p=p, p_global=p_global)
             cost += result['cost']
-            step += 1
-
-        if len(parameter_values) > 0:
-            parameter_values = parameter_values[:, -1]
-        else:
-            parameter_values = parameter_values
-
-        cost_fun_args = [acados_ocp_iterate.x_traj[-1], parameter_values, p_global_values]
-        cost += self.terminal_cost_fun(*cost_fun_args).full()
-
-        lower_violation_e, upper_violation_e, lower_slack_e, upper_slack_e = (
-            self.constraint_function_e(acados_ocp_iterate.x_traj[-1],
-                                       parameter_values,
-                                       p_global_values))
 
-        violation_hard_constraints = np.concatenate(
-            (lower_violation_e[self.nonslacked_indices_e],
-             upper_violation_e[self.nonslacked_indices_e]))
-
-        # evaluate cost of soft constraints
-        lower_slack_cost_e, upper_slack_cost_e = np.array([0.]), np.array([0.])
-        if self.__ocp.cost.Zl_e.size > 0:
-            lower_slack_cost_e += 0.5 * lower_slack_e.full().transpose()@self.__ocp.cost.Zl_e @ lower_slack_e.full()
+        args_e = [acados_ocp_iterate.x[-1], parameter_values[:, -1] if len(parameter_values) > 0 else parameter_values, p_global_values]
+        _, _, lower_slack_e, upper_slack_e = self.constraint_function_e(*args_e)
+        cost += self.cost_scaling[-1] * (
+            float(self.terminal_cost_fun(*args_e)) +
+            self.__slack_cost(cost_params.zl_e, cost_params.Zl_e, cost_params.zu_e, cost_params.Zu_e,
+                              lower_slack_e, upper_slack_e))
 
-        if self.__ocp.cost.zl_e.size > 0:
-            lower_slack_cost_e += self.__ocp.cost.zl_e @ lower_slack_e.full()
-
-
-        if self.__ocp.cost.Zu_e.size > 0:
-            upper_slack_cost_e += 0.5 * upper_slack_e.full().transpose()@self.__ocp.cost.Zu_e @  upper_slack_e.full()
-
-        if self.__ocp.cost.zu_e.size > 0:
-            upper_slack_cost_e += self.__ocp.cost.zu_e @ upper_slack_e.full()
-
-        if lower_slack_e.full().size > 0:
-            cost += lower_slack_cost_e
-        if upper_slack_e.full().size > 0:
-            cost += upper_slack_cost_e
-
-        return cost[0][0]
+        return cost
 
 
 def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarray]:
@@ -410,9 +346,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
         lower_violation = ca.fmax(ocp.constraints.lbu[ibu] - model.u[iu], 0)
         upper_violation = ca.fmax(model.u[iu] - ocp.constraints.ubu[ibu], 0)
         cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                    ocp.cost.Zl[i_slack] * lower_violation ** 2
+                    ocp.cost.Zl[i_slack] * 0.5 * lower_violation ** 2
         cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                    ocp.cost.Zu[i_slack] * upper_violation ** 2
+                    ocp.cost.Zu[i_slack] * 0.5 * upper_violation ** 2
         i_slack += 1
 
     for ibx in ocp.constraints.idxsbx:
@@ -420,9 +356,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
         lower_violation = ca.fmax(ocp.constraints.lbx[ibx] - model.x[ix], 0)
         upper_violation = ca.fmax(model.x[ix] - ocp.constraints.ubx[ibx], 0)
         cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                    ocp.cost.Zl[i_slack] * lower_violation ** 2
+                    ocp.cost.Zl[i_slack] * 0.5 * lower_violation ** 2
         cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                    ocp.cost.Zu[i_slack] * upper_violation ** 2
+                    ocp.cost.Zu[i_slack] * 0.5 * upper_violation ** 2
         i_slack += 1
 
     if not is_empty(ocp.constraints.C):
@@ -431,9 +367,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
             lower_violation = ca.fmax(ocp.constraints.lg[ig] - g[ig], 0)
             upper_violation = ca.fmax(g[ig] - ocp.constraints.ug[ig], 0)
             cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                        ocp.cost.Zl[i_slack] * lower_violation ** 2
+                        ocp.cost.Zl[i_slack] * 0.5 * lower_violation ** 2
             cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                        ocp.cost.Zu[i_slack] * upper_violation ** 2
+                        ocp.cost.Zu[i_slack] * 0.5 * upper_violation ** 2
             i_slack += 1
 
     for ih in ocp.constraints.idxsh:
@@ -442,9 +378,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
         upper_violation = ca.fmax(
             ocp.model.con_h_expr[ih] - ocp.constraints.uh[ih], 0)
         cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                    ocp.cost.Zl[i_slack] * lower_violation ** 2
+                    ocp.cost.Zl[i_slack] * 0.5 * lower_violation ** 2
         cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                    ocp.cost.Zu[i_slack] * upper_violation ** 2
+                    ocp.cost.Zu[i_slack] * 0.5 * upper_violation ** 2
         i_slack += 1
 
     if not is_empty(ocp.constraints.idxsphi):
@@ -529,17 +465,21 @@ def detect_constraint_structure(model: AcadosModel, constraints: AcadosOcpConstr
             print(' ')
         else:  # c is linear in x and u
             Jc_fun = ca.Function('Jc_fun', [x, u], [
-                ca.jacobian(c, ca.vertcat(x, u))])
-            Jc = Jc_fun(0, 0)
+                ca.densify(ca.jacobian(c, ca.vertcat(x, u))), c])
+            Jc, c_offset = Jc_fun(0, 0)
+            c_offset = float(c_offset)
             if np.sum(Jc != 0) == 1:
                 # c is bound
-                idb = Jc.full().squeeze().nonzero()[0][0]
+                idb = Jc.full().flatten().nonzero()[0][0]
+                bound_1 = (lb[ii] - c_offset) / float(Jc[idb])
+                bound_2 = (ub[ii] - c_offset) / float(Jc[idb])
+                lower_bound, upper_bound = min(bound_1, bound_2), max(bound_1, bound_2)
                 if idb < nx:
                     # Bound on x
                     Jbx = ca.vertcat(Jbx, casadi_dm_zeros(1, nx))
                     Jbx[-1, idb] = 1
-                    lbx.append(lb[ii] / Jc[idb])
-                    ubx.append(ub[ii] / Jc[idb])
+                    lbx.append(lower_bound)
+                    ubx.append(upper_bound)
                     print(f'constraint {ii + 1} is reformulated as bound on x.')
                     print(c)
                     print(' ')
@@ -547,8 +487,8 @@ def detect_constraint_structure(model: AcadosModel, constraints: AcadosOcpConstr
                     # Bound on u
                     Jbu = ca.vertcat(Jbu, casadi_dm_zeros(1, nu))
                     Jbu[-1, idb - nx] = 1
-                    lbu.append(lb[ii] / Jc[idb])
-                    ubu.append(ub[ii] / Jc[idb])
+                    lbu.append(lower_bound)
+                    ubu.append(upper_bound)
                     print(f'constraint {ii + 1} is reformulated as bound on u.')
                     print(c)
                     print(' ')
@@ -556,8 +496,8 @@ def detect_constraint_structure(model: AcadosModel, constraints: AcadosOcpConstr
                 # c is general linear constraint
                 c_lin = ca.vertcat(c_lin, Jc[:nx])
                 d_lin = ca.vertcat(d_lin, Jc[nx:])
-                lg.append(lb[ii])
-                ug.append(ub[ii])
+                lg.append(lb[ii] - c_offset)
+                ug.append(ub[ii] - c_offset)
                 print(
                     f'constraint {ii + 1} is reformulated as general linear constraint.')
                 print(c)
@@ -565,7 +505,7 @@ def detect_constraint_structure(model: AcadosModel, constraints: AcadosOcpConstr
 
     if stage_type == 'terminal':
         # Checks
-        if any(ca.which_depends(expr_constr, u)) or lbu or (d_lin.size()[0] > 0 and any(d_lin)):
+        if any(ca.which_depends(expr_constr, u)) or lbu or np.any(d_lin.full() != 0):
             raise ValueError(
                 'Terminal constraint may not depend on control input.')
         # h
@@ -580,7 +520,7 @@ def detect_constraint_structure(model: AcadosModel, constraints: AcadosOcpConstr
             constraints.uh_e = np.array([])
         # linear constraint g
         if lg:
-            constraints.C_e = c_lin
+            constraints.C_e = np.array(c_lin)
             constraints.lg_e = np.array(lg)
             constraints.ug_e = np.array(ug)
         # Bounds x
@@ -697,6 +637,7 @@ def create_ocp_with_control_horizon(ocp: AcadosOcp, Nc: int, Nr: int=None) -> Un
     trns_model.x = ocp.model.x
     trns_model.u = ocp.model.u
     trns_model.disc_dyn_expr = ca.vertcat(ocp.model.x, ocp.model.u)
+    trns_model.p_global = ocp.model.p_global
 
     trns_ocp = AcadosOcp()
     trns_ocp.model = trns_model
@@ -709,21 +650,36 @@ def create_ocp_with_control_horizon(ocp: AcadosOcp, Nc: int, Nr: int=None) -> Un
     aug_ocp = deepcopy(ocp)
     aug_ocp.model.x = ca.vertcat(ocp.model.x, ocp.model.u)
     aug_ocp.model.u = ca_symbol('u_aug', 0, 0)
-    if ocp.solver_options.integrator_type == 'ERK':
-        aug_ocp.model.f_expl_expr = ca.vertcat(ocp.model.f_expl_expr, ca.SX.zeros(nu))
-    elif ocp.solver_options.integrator_type == 'IRK':
-        udot = ca_symbol('udot', nu)
+    if ocp.solver_options.integrator_type not in ['ERK', 'IRK', 'DISCRETE']:
+        raise ValueError('integrator_type not supported in create_ocp_with_control_horizon!')
+    # the controls are held constant
+    udot = ca_symbol('udot', nu)
+    if not is_empty(ocp.model.xdot):
         aug_ocp.model.xdot = ca.vertcat(ocp.model.xdot, udot)
+    if not is_empty(ocp.model.f_expl_expr):
+        aug_ocp.model.f_expl_expr = ca.vertcat(ocp.model.f_expl_expr, ca.DM.zeros(nu))
+    if not is_empty(ocp.model.f_impl_expr):
         aug_ocp.model.f_impl_expr = ca.vertcat(ocp.model.f_impl_expr, udot)
-    elif ocp.solver_options.integrator_type == 'DISCRETE':
+    if not is_empty(ocp.model.disc_dyn_expr):
         aug_ocp.model.disc_dyn_expr = ca.vertcat(ocp.model.disc_dyn_expr, ocp.model.u)
-    else:
-        raise ValueError('integrator_type not supported in create_ocp_with_control_horizon!')
 
     if ocp.cost.cost_type == 'LINEAR_LS':
         aug_ocp.cost.Vu = np.zeros((len(ocp.cost.yref), 0))
         aug_ocp.cost.Vx = np.concatenate((ocp.cost.Vx, ocp.cost.Vu), axis=1)
-        aug_ocp.cost.Vx_e = np.concatenate((ocp.cost.Vx_e, np.zeros((len(ocp.cost.yref_e), nu))), axis=1)
+
+    if ocp.cost.cost_type_0 == 'LINEAR_LS':
+        aug_ocp.cost.Vu_0 = np.zeros((len(ocp.cost.yref_0), 0))
+        aug_ocp.cost.Vx_0 = np.concatenate((ocp.cost.Vx_0, ocp.cost.Vu_0), axis=1)
+
+    if ocp.cost.cost_type_e == 'LINEAR_LS':
+        aug_ocp.cost.Vx_e = np.concatenate((ocp.cost.Vx_e, np.zeros((ocp.cost.Vx_e.shape[0], nu))), axis=1)
+
+    # linear constraints: the held controls are states
+    if not is_empty(ocp.constraints.C):
+        aug_ocp.constraints.C = np.concatenate((ocp.constraints.C, ocp.constraints.D), axis=1)
+        aug_ocp.constraints.D = np.zeros((ocp.constraints.C.shape[0], 0))
+    if not is_empty(ocp.constraints.C_e):
+        aug_ocp.constraints.C_e = np.concatenate((ocp.constraints.C_e, np.zeros((ocp.constraints.C_e.shape[0], nu))), axis=1)
 
     # NOTE: other cost types do not need to be redefined as they are defined via expressions.
     # remove initial state constraint, not relevant in second phase:
@@ -740,8 +696,8 @@ def create_ocp_with_control_horizon(ocp: AcadosOcp, Nc: int, Nr: int=None) -> Un
     if Nc == 1:
         # Missing Ts from transition node needs to be compensated for by additional shooting node in Nr interval effectively promoting one of the Nr-nodes to a Nu-node
         mocp = AcadosMultiphaseOcp(N_list=[1, Nr+1])
-        mocp.solver_options = ocp.solver_options
-        mocp.solver_options.time_steps = np.array([0] + (Nr+1) * [Ts*(Np-Nc)/Nr])
+        mocp.solver_options = deepcopy(ocp.solver_options)
+        mocp.solver_options.time_steps = np.array([0, Ts] + Nr * [Ts*(Np-Nc)/Nr])
         mocp.mocp_opts.integrator_type = ['DISCRETE', aug_ocp.solver_options.integrator_type]
 
         trns_model.name = ocp.model.name
@@ -751,12 +707,14 @@ def create_ocp_with_control_horizon(ocp: AcadosOcp, Nc: int, Nr: int=None) -> Un
         mocp.set_phase(aug_ocp, 1)
     else:
         mocp = AcadosMultiphaseOcp(N_list=[Nc-1, 1, Nr+1])
-        mocp.solver_options = ocp.solver_options
-        mocp.solver_options.time_steps = np.array((Nc-1) * [Ts] + [0] + (Nr+1) * [Ts*(Np-Nc)/Nr])
+        mocp.solver_options = deepcopy(ocp.solver_options)
+        mocp.solver_options.time_steps = np.array((Nc-1) * [Ts] + [0, Ts] + Nr * [Ts*(Np-Nc)/Nr])
         mocp.mocp_opts.integrator_type = [ocp.solver_options.integrator_type, 'DISCRETE', aug_ocp.solver_options.integrator_type]
 
         mocp.set_phase(ocp, 0)
         mocp.set_phase(trns_ocp, 1)
         mocp.set_phase(aug_ocp, 2)
 
+    mocp.p_global_values = ocp.p_global_values
+
     return mocp
-- 
2.43.0


From 2c9a410b7a3fb99ae737dfd89f22dc10679bf4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:42 +0000
Subject: [PATCH 59/66] fix: terminal constraints, Riccati modes with general
 constraints, noise inputs and N=1 of the zoRO custom update

---
 .../custom_update_function_zoro_template.in.c | 119 ++++++++++--------
 1 file changed, 66 insertions(+), 53 deletions(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index bc6cc43..005fe09 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -553,47 +553,54 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     int nbx_e = {{ dims.nbx_e }};
 
     /* Get the state constraint bounds */
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "idxbx", custom_mem->idxbx);
+    // NOTE: there are no intermediate nodes if N == 1
+    if (N > 1)
+    {
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "idxbx", custom_mem->idxbx);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbx", custom_mem->d_lbx);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubx", custom_mem->d_ubx);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lg", custom_mem->d_lg);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ug", custom_mem->d_ug);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lh", custom_mem->d_lh);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "uh", custom_mem->d_uh);
+    }
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "idxbx", custom_mem->idxbx_e);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbx", custom_mem->d_lbx);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubx", custom_mem->d_ubx);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lbx", custom_mem->d_lbx_e);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "ubx", custom_mem->d_ubx_e);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "idxbu", custom_mem->idxbu);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbu", custom_mem->d_lbu);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubu", custom_mem->d_ubu);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "idxbu", custom_mem->idxbu);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "lbu", custom_mem->d_lbu);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "ubu", custom_mem->d_ubu);
     // Get the Jacobians and the bounds of the linear constraints
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lg", custom_mem->d_lg);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ug", custom_mem->d_ug);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lg", custom_mem->d_lg_e);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "ug", custom_mem->d_ug_e);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "C", custom_mem->d_Cg_mat);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "D", custom_mem->d_Dg_mat);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "C", custom_mem->d_Cg_mat);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "D", custom_mem->d_Dg_mat);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "C", custom_mem->d_Cg_e_mat);
     blasfeo_pack_dmat(ng, nx, custom_mem->d_Cg_mat, ng, &custom_mem->Cg_mat, 0, 0);
     blasfeo_pack_dmat(ng, nu, custom_mem->d_Dg_mat, ng, &custom_mem->Dg_mat, 0, 0);
     blasfeo_pack_dmat(ng_e, nx, custom_mem->d_Cg_e_mat, ng_e, &custom_mem->Cg_e_mat, 0, 0);
     blasfeo_dgese(ngh_e_max, nu, 0., &custom_mem->dummy_Dgh_e_mat, 0, 0); //fill with zeros
     // NOTE: fixed lower and upper bounds of nonlinear constraints
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lh", custom_mem->d_lh);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "uh", custom_mem->d_uh);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lh", custom_mem->d_lh_e);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "uh", custom_mem->d_uh_e);
 
     /* Initilize tightened constraints*/
     // NOTE: tightened constraints are only initialized once
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbx", custom_mem->d_lbx_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubx", custom_mem->d_ubx_tightened);
+    if (N > 1)
+    {
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbx", custom_mem->d_lbx_tightened);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubx", custom_mem->d_ubx_tightened);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lg", custom_mem->d_lg_tightened);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ug", custom_mem->d_ug_tightened);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lh", custom_mem->d_lh_tightened);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "uh", custom_mem->d_uh_tightened);
+    }
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lbx", custom_mem->d_lbx_e_tightened);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "ubx", custom_mem->d_ubx_e_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbu", custom_mem->d_lbu_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubu", custom_mem->d_ubu_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lg", custom_mem->d_lg_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ug", custom_mem->d_ug_tightened);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "lbu", custom_mem->d_lbu_tightened);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "ubu", custom_mem->d_ubu_tightened);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lg", custom_mem->d_lg_e_tightened);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "ug", custom_mem->d_ug_e_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lh", custom_mem->d_lh_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "uh", custom_mem->d_uh_tightened);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lh", custom_mem->d_lh_e_tightened);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "uh", custom_mem->d_uh_e_tightened);
 
@@ -611,8 +618,8 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
 {%- endfor %}
 
-{%- if not zoro_description.input_W_diag %}
-    // NOTE: G, W are not changing -> precompute GWG
+
+    // precompute GWG
     // temp_GW_mat = unc_jac_G_mat * W_mat
     blasfeo_dgemm_nn(nx, nw, nw, 1.0, &custom_mem->unc_jac_G_mat, 0, 0,
                         &custom_mem->W_mat, 0, 0, 0.0,
@@ -621,7 +628,6 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     blasfeo_dgemm_nt(nx, nx, nw, 1.0, &custom_mem->temp_GW_mat, 0, 0,
                         &custom_mem->unc_jac_G_mat, 0, 0, 0.0,
                         &custom_mem->GWG_mat, 0, 0, &custom_mem->GWG_mat, 0, 0);
-{%- endif %}
 
 {%- if zoro_description.input_W_add_diag %}
     // NOTE: Initialize additive covariance matrix to 0.
@@ -644,12 +650,14 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
 {%- endfor %}
 {%- endif %}
 
+{%- if zoro_description.feedback_optimization_mode == "CONSTANT_FEEDBACK" %}
     /* Initialize the feedback gain matrix */
 {%- for ir in range(end=dims.nu) %}
     {%- for ic in range(end=dims.nx) %}
     blasfeo_dgein1({{zoro_description.fdbk_K_mat[ir][ic]}}, &custom_mem->K_mat, {{ir}}, {{ic}});
     {%- endfor %}
 {%- endfor %}
+{%- endif %}
 
 {%- if not zoro_description.feedback_optimization_mode == "CONSTANT_FEEDBACK" %}
 {%- for ir in range(end=dims.nx) %}
@@ -698,8 +706,8 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // lg
     {%- for it in zoro_description.idx_lg_t %}
-    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, it, 0, &custom_mem->dct_dux, ir, 0);
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, it, 0, &custom_mem->dct_dux, ir, nu);
+    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, nu);
     ir += 1;
     {%- endfor %}
     // lh
@@ -716,32 +724,32 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // ug
     {%- for it in zoro_description.idx_ug_t %}
-    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, it, 0, &custom_mem->dct_dux, ir, 0);
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, it, 0, &custom_mem->dct_dux, ir, nu);
+    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, nu);
     ir += 1;
     {%- endfor %}
 
     ir = 0;
     // lbx_e
     {%- for it in zoro_description.idx_lbx_e_t %}
-    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx[{{it}}]);
+    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx_e[{{it}}]);
     ir += 1;
     {%- endfor %}
     // lg_e
     {%- for it in zoro_description.idx_lg_e_t %}
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, it, 0, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, {{it}}, 0, &custom_mem->dcet_dx, ir, 0);
     ir += 1;
     {%- endfor %}
     // lh_e (just add offset)
     ir += {{zoro_description.nlh_e_t}};
     // ubx_e
     {%- for it in zoro_description.idx_ubx_e_t %}
-    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx[{{it}}]);
+    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx_e[{{it}}]);
     ir += 1;
     {%- endfor %}
     // ug_e
     {%- for it in zoro_description.idx_ug_e_t %}
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, it, 0, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, {{it}}, 0, &custom_mem->dcet_dx, ir, 0);
     ir += 1;
     {%- endfor %}
 
@@ -893,17 +901,18 @@ static void compute_GWG_stagewise_varying(ocp_nlp_solver* solver, custom_memory*
     const int nx = nlp_dims->nx[0];
     const int nw = {{ zoro_description.nw }};
 
-    // NOTE: update noise covariance terms for current stage
-    for (int i = 0; i < nw; ++i)
+    // NOTE: Combine constant W part with additive one for current stage
+    blasfeo_dgecp(nw, nw, &custom_mem->W_mat, 0, 0, &custom_mem->W_stage_mat, 0, 0);
+    if (data != NULL)
     {
-        blasfeo_dgein1(data[custom_mem->offset_W_add_diag + nw * current_stage + i], &custom_mem->W_stage_mat, i, i);
+        for (int i = 0; i < nw; ++i)
+        {
+            blasfeo_dgein1(blasfeo_dgeex1(&custom_mem->W_mat, i, i) + data[custom_mem->offset_W_add_diag + nw * current_stage + i],
+                           &custom_mem->W_stage_mat, i, i);
+        }
     }
     //   blasfeo_print_exp_dmat(nw, nw, &custom_mem->W_stage_mat, 0, 0);
 
-    // NOTE: Combine constant W part with additive one
-    blasfeo_dgead(nw, nw, 1.0, &custom_mem->W_mat, 0, 0, &custom_mem->W_stage_mat, 0, 0);
-    //   blasfeo_print_exp_dmat(nw, nw, &custom_mem->W_stage_mat, 0, 0);
-
     // NOTE: Compute G@W@G^T term with W_stage_mat
     // temp_GW_mat = unc_jac_G_mat * W_stage_mat
     blasfeo_dgemm_nn(nx, nw, nw, 1.0, &custom_mem->unc_jac_G_mat, 0, 0, &custom_mem->W_stage_mat, 0, 0, 0.0,
@@ -939,6 +948,9 @@ static void reset_Sigma_p_matrix(struct blasfeo_dmat* Sigma_p_mat, double *data)
 {%- endif %}
 }
 
+{%- endif %}
+
+{%- if (code_gen_options.sens_forw_p) and zoro_description.nonlinear_uncertainty_mode == "NOISE" %}
 /**
  * @brief Build the additive term for covariance propagation: temp_GSp_mat = GWG + S_p Sigma_p S_p^T.
  *
@@ -1058,8 +1070,8 @@ static void update_riccati_quad_matrices(ocp_nlp_solver *solver, ocp_nlp_memory
     // lh
 {%- for it in zoro_description.idx_lh_t %}
     // NOTE: the d_Cgh_mat is column-major, the first ng rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, 0, 0);
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, 0, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, 0);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, nu);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, nu);
     temp_nominal_val = custom_mem->d_ineq_val[ng + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+ii, nbu + nbx + ng + {{it}}));
@@ -1113,8 +1125,8 @@ static void update_riccati_quad_matrices(ocp_nlp_solver *solver, ocp_nlp_memory
 // uh
 {%- for it in zoro_description.idx_uh_t %}
     // NOTE: the d_Cgh_mat is column-major, the first ng rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, 0, 0);
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, 0, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, 0);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, nu);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, nu);
     temp_nominal_val = -custom_mem->d_ineq_val[ng + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+ii, nbu + nbx + ng + {{it}}));
@@ -1168,7 +1180,7 @@ static void update_riccati_quad_matrices_terminal(ocp_nlp_solver *solver, ocp_nl
 
 {%- if zoro_description.nlh_e_t + zoro_description.nuh_e_t > 0 %}
     // Get C_N
-    ocp_nlp_get_at_stage(solver, N, "C", custom_mem->d_Cgh_mat);
+    ocp_nlp_get_at_stage(solver, N, "C", custom_mem->d_Cgh_e_mat);
 {%- endif %}
 
 {%- if zoro_description.nlg_e_t + zoro_description.nlh_e_t > 0 %}
@@ -1185,9 +1197,9 @@ static void update_riccati_quad_matrices_terminal(ocp_nlp_solver *solver, ocp_nl
 {%- endfor %}
 // lh_e
 {%- for it in zoro_description.idx_lh_e_t %}
-    // NOTE: the d_Cgh_mat is column-major, the first ng_e rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
+    // NOTE: the d_Cgh_e_mat is column-major, the first ng_e rows are the Jacobians of the linear constraints
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
     temp_nominal_val = custom_mem->d_ineq_e_val[ng_e + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+N, nbx_e + ng_e + {{it}}));
 {%- if zoro_description.feedback_optimization_mode == "RICCATI_BARRIER_1" %}
     blasfeo_dgesc(1, nx, custom_mem->tau / (temp_nominal_val * temp_nominal_val), &custom_mem->scaled_dcet_dx, ir, 0);
@@ -1226,9 +1238,9 @@ static void update_riccati_quad_matrices_terminal(ocp_nlp_solver *solver, ocp_nl
 {%- endfor %}
 // uh_e
 {%- for it in zoro_description.idx_uh_e_t %}
-    // NOTE: the d_Cgh_mat is column-major, the first ng_e rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
+    // NOTE: the d_Cgh_e_mat is column-major, the first ng_e rows are the Jacobians of the linear constraints
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
     temp_nominal_val = - custom_mem->d_ineq_e_val[ng_e + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+N, nbx_e + ng_e + {{it}}));
 {%- if zoro_description.feedback_optimization_mode == "RICCATI_BARRIER_1" %}
     blasfeo_dgesc(1, nx, custom_mem->tau / (temp_nominal_val * temp_nominal_val), &custom_mem->scaled_dcet_dx, ir, 0);
@@ -1696,7 +1708,7 @@ static void uncertainty_propagate_and_update(ocp_nlp_solver *solver, ocp_nlp_in
 
 {%- if zoro_description.nlg_e_t + zoro_description.nug_e_t > 0 %}
     // Linear constraints: g
-    compute_gh_beta(K_mat, &custom_mem->Cg_mat,
+    compute_gh_beta(K_mat, &custom_mem->Cg_e_mat,
                     &custom_mem->dummy_Dgh_e_mat, &custom_mem->temp_CaDK_mat,
                     &custom_mem->temp_CaDKmP_mat, &custom_mem->temp_beta_mat,
                     &custom_mem->uncertainty_matrix_buffer[N], ng_e, nx, nu);
@@ -1726,9 +1738,9 @@ static void uncertainty_propagate_and_update(ocp_nlp_solver *solver, ocp_nlp_in
     // Get C_{k+1} and D_{k+1}
     ocp_nlp_get_at_stage(solver, N, "C", custom_mem->d_Cgh_e_mat);
     // NOTE: the d_Cgh_e_mat is column-major, the first ng_e rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(nh_e, nx, custom_mem->d_Cgh_e_mat+ng_e, ng_e+nh_e, &custom_mem->Ch_mat, 0, 0);
+    blasfeo_pack_dmat(nh_e, nx, custom_mem->d_Cgh_e_mat+ng_e, ng_e+nh_e, &custom_mem->Ch_e_mat, 0, 0);
 
-    compute_gh_beta(K_mat, &custom_mem->Ch_mat,
+    compute_gh_beta(K_mat, &custom_mem->Ch_e_mat,
                     &custom_mem->dummy_Dgh_e_mat, &custom_mem->temp_CaDK_mat,
                     &custom_mem->temp_CaDKmP_mat, &custom_mem->temp_beta_mat,
                     &custom_mem->uncertainty_matrix_buffer[N], nh_e, nx, nu);
@@ -1833,7 +1845,8 @@ int custom_update_function({{ name }}_solver_capsule* capsule, double* data, int
     riccati_recursion(nlp_solver, nlp_mem, custom_mem);
     double time_riccati = acados_toc(&timer0);
 {%- endif %}
-    uncertainty_propagate_and_update(nlp_solver, nlp_in, nlp_out, custom_mem, data, data_len);
+    // NOTE: data is only available if streaming
+    uncertainty_propagate_and_update(nlp_solver, nlp_in, nlp_out, custom_mem, streaming > 0 ? data : NULL, data_len);
 
 
 {%- if zoro_description.output_P_matrices %}
-- 
2.43.0


From 52cc332392a9c2dd377c3ee48ce58afc23ae7329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:55 +0000
Subject: [PATCH 60/66] fix: ERK variants, slack bounds and Hessian
 approximation of the CasADi NLP formulation

---
 .../acados_template/acados_casadi_ocp.py      | 137 ++++++++++++------
 1 file changed, 91 insertions(+), 46 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index c903159..f5c06d4 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -37,6 +37,34 @@ from .acados_sim import AcadosSim
 from .acados_ocp_iterate import AcadosOcpIterate, AcadosOcpFlattenedIterate
 import importlib.util
 
+def _erk_expression(model, dt, num_steps: int, num_stages: int):
+    """
+    Expression of the state at the end of an interval of length dt, using the explicit Runge-Kutta methods implemented in acados.
+    """
+    tableaus = {
+        1: ([[]], [1.]),
+        2: ([[], [0.5]], [0., 1.]),
+        3: ([[], [0.5], [-1., 2.]], [1/6, 2/3, 1/6]),
+        4: ([[], [0.5], [0., 0.5], [0., 0., 1.]], [1/6, 1/3, 1/3, 1/6]),
+    }
+    if num_stages not in tableaus:
+        raise NotImplementedError(f"ERK with {num_stages} stages is not supported.")
+    A, b = tableaus[num_stages]
+    f_expl = ca.Function('f_expl', [model.x, model.u, model.p, model.p_global], [model.f_expl_expr])
+    h = dt / num_steps
+    x = model.x
+    for _ in range(num_steps):
+        k = []
+        for a in A:
+            x_stage = x
+            for a_j, k_j in zip(a, k):
+                x_stage = x_stage + h * a_j * k_j
+            k.append(f_expl(x_stage, model.u, model.p, model.p_global))
+        for b_j, k_j in zip(b, k):
+            x = x + h * b_j * k_j
+    return x
+
+
 class AcadosCasadiOcp:
 
     def __init__(self, ocp: AcadosOcp, 
@@ -90,6 +118,9 @@ class AcadosCasadiOcp:
             # indices of dual variable for soften constraints within lam_g in casadi formulation
             'lam_gnl_sl_in_lam_g': [[] for _ in range(ocp.solver_options.N_horizon+1)],
             'lam_gnl_su_in_lam_g': [[] for _ in range(ocp.solver_options.N_horizon+1)],
+            # indices of the lower and upper bounds of all h constraints, hard or softened, within lbg and ubg in casadi formulation
+            'lh_in_lbg': [[] for _ in range(ocp.solver_options.N_horizon+1)],
+            'uh_in_ubg': [[] for _ in range(ocp.solver_options.N_horizon+1)],
         }
         self.offset_w = 0  # offset for the indices in index_map
         self.offset_gnl = 0
@@ -187,8 +218,10 @@ class AcadosCasadiOcp:
         g = []
         lbg = []
         ubg = []
+        exact_hess_terms = []  # (offset in g, expression) of constraints contributing their exact Hessian
+        phi_hess_terms = []  # (offset in g, Jacobian of inner function, list of outer Hessians)
+        exact_hess = solver_options.hessian_approx == 'EXACT'
         if with_hessian:
-            lam_g = []
             hess_l = ca.DM.zeros((nw, nw))
         # dynamics constraints
         dt = ca_symbol('dt', 1, 1)
@@ -197,11 +230,13 @@ class AcadosCasadiOcp:
             if solver_options.integrator_type == "DISCRETE":
                 self.__f_discr_fun = ca.Function('f_discr_fun', [model.x, model.u, param], [model.disc_dyn_expr])
             elif solver_options.integrator_type == "ERK":
-                param_base = ca.vertcat(model.p, model.p_global)
-                u_p_combined = ca.vertcat(model.u, param_base)
-                ca_expl_ode = ca.Function('ca_expl_ode', [model.x, u_p_combined], [model.f_expl_expr])
-                rk_fun = ca.simpleRK(ca_expl_ode, solver_options.sim_method_num_steps[0], solver_options.sim_method_num_stages[0])
-                self.__f_discr_fun = ca.Function('f_discr_fun', [model.x, model.u, param], [rk_fun(model.x, u_p_combined, dt)])
+                f_discr_funs = {}
+                for num_steps, num_stages in zip(solver_options.sim_method_num_steps, solver_options.sim_method_num_stages):
+                    if (num_steps, num_stages) not in f_discr_funs:
+                        x_next = _erk_expression(model, dt, num_steps, num_stages)
+                        f_discr_funs[(num_steps, num_stages)] = ca.Function('f_discr_fun', [model.x, model.u, param], [x_next])
+                f_discr_fun_traj = [f_discr_funs[key] for key in zip(solver_options.sim_method_num_steps, solver_options.sim_method_num_stages)]
+                self.__f_discr_fun = f_discr_fun_traj[0]
             else:
                 raise NotImplementedError(f"Integrator type {solver_options.integrator_type} not supported.")
         else:
@@ -219,6 +254,8 @@ class AcadosCasadiOcp:
             else:
                 raise NotImplementedError(f"Integrator type {solver_options.integrator_type} not supported.")
             self.__f_discr_fun = ca.Function('f_discr_fun', [model.x, model.u, param], [x_next])
+        if with_casados or solver_options.integrator_type != "ERK":
+            f_discr_fun_traj = N_horizon * [self.__f_discr_fun]
 
         for i in range(N_horizon+1):
             # add dynamics constraints
@@ -227,32 +264,24 @@ class AcadosCasadiOcp:
                     utraj_node = utraj_nodes[i] if dims.nu > 0 else ca_symbol('dummy_u', 0, 1)
                     ptraj_node = ptraj_nodes[i][:dims.np] if dims.np > 0 else ca_symbol('dummy_p', 0, 1)
                     param = ca.vertcat(ptraj_node, model.p_global, solver_options.time_steps[i])
-                    dyn_equality = xtraj_nodes[i+1] - self.__f_discr_fun(xtraj_nodes[i], utraj_node, param)
+                    dyn_equality = xtraj_nodes[i+1] - f_discr_fun_traj[i](xtraj_nodes[i], utraj_node, param)
 
                     self._append_constraints(i, 'dyn', g, lbg, ubg,
                                             g_expr = dyn_equality,
                                             lbg_expr = np.zeros((dims.nx, 1)),
                                             ubg_expr = np.zeros((dims.nx, 1)),
                                             cons_dim=dims.nx)
-                    if with_hessian:
-                        # add hessian of dynamics constraints
-                        lam_g_dyn = ca_symbol(f'lam_g_dyn{i}', dims.nx, 1)
-                        lam_g.append(lam_g_dyn)
-                        if ocp.solver_options.hessian_approx == 'EXACT' and ocp.solver_options.exact_hess_dyn:
-                            adj = ca.jtimes(dyn_equality, w, lam_g_dyn, True)
-                            hess_l += ca.jacobian(adj, w, {"symmetric": is_casadi_SX(model.x)})
+                    if exact_hess and solver_options.exact_hess_dyn:
+                        exact_hess_terms.append((self.offset_gnl - dims.nx, dyn_equality))
             else: # single_shooting
                 if i < N_horizon:
                     utraj_node = utraj_nodes[i] if dims.nu > 0 else ca_symbol('dummy_u', 0, 1)
                     ptraj_node = ptraj_nodes[i][:dims.np] if dims.np > 0 else ca_symbol('dummy_p', 0, 1)
                     x_current = xtraj_nodes[i]
-                    if solver_options.integrator_type == "DISCRETE":
-                        x_next = self.f_discr_fun(x_current, utraj_node, ptraj_node, model.p_global)
-                    elif solver_options.integrator_type == "ERK":
-                        param = ca.vertcat(utraj_node, ptraj_node, model.p_global)
-                        x_next = self.f_discr_fun(x_current, param, solver_options.time_steps[i])
+                    param = ca.vertcat(ptraj_node, model.p_global, solver_options.time_steps[i])
+                    x_next = f_discr_fun_traj[i](x_current, utraj_node, param)
                     xtraj_nodes.append(x_next)
-                    self._x_traj_fun.append(self.f_discr_fun)
+                    self._x_traj_fun.append(f_discr_fun_traj[i])
 
             # Nonlinear Constraints
             constraint_dict = self._get_constraint_node(i, N_horizon, xtraj_nodes, utraj_nodes, ptraj_nodes, model, constraints, dims)
@@ -268,6 +297,7 @@ class AcadosCasadiOcp:
 
             # add nonlinear constraints using constraint_dict directly (no locals)
             if constraint_dict['nh'] > 0:
+                offset_h, n_g_before = self.offset_gnl, len(g)
                 if constraint_dict['nsh'] > 0:
                     # h_fun with slack variables
                     soft_h_indices = constraint_dict['idxsh']
@@ -304,13 +334,8 @@ class AcadosCasadiOcp:
                                              ubg_expr = constraint_dict['uh'],
                                              cons_dim=constraint_dict['nh'],
                                              gnl_type='h')
-                if with_hessian:
-                    # add hessian contribution
-                    lam_h = ca_symbol(f'lam_h_{i}', constraint_dict['nh'], 1)
-                    lam_g.append(lam_h)
-                    if ocp.solver_options.hessian_approx == 'EXACT' and ocp.solver_options.exact_hess_constr:
-                        adj = ca.jtimes(constraint_dict['h_i_nlp_expr'], w, lam_h, True)
-                        hess_l += ca.jacobian(adj, w, {"symmetric": is_casadi_SX(model.x)})
+                if exact_hess and solver_options.exact_hess_constr:
+                    exact_hess_terms.append((offset_h, ca.vertcat(*g[n_g_before:])))
 
             # add convex-over-nonlinear constraints
             if constraint_dict['nphi'] > 0:
@@ -318,7 +343,7 @@ class AcadosCasadiOcp:
                 if i < N_horizon:
                     utraj_node = utraj_nodes[i] if dims.nu > 0 else ca_symbol('dummy_u', 0, 1)
                 else:
-                    utraj_node = ca_symbol('dummy_u', 0, 1)
+                    utraj_node = np.zeros((dims.nu, 1))
                 ptraj_node = ptraj_nodes[i][:dims.np] if dims.np > 0 else ca_symbol('dummy_p', 0, 1)
                 self._append_constraints(i, 'gnl', g, lbg, ubg,
                                          g_expr = conl_constr_fun(xtraj_nodes[i], utraj_node, ptraj_node, model.p_global),
@@ -327,17 +352,19 @@ class AcadosCasadiOcp:
                                          cons_dim= constraint_dict['nphi'],
                                          gnl_type='phi')
                 if with_hessian:
-                    lam_phi = ca_symbol(f'lam_phi_{i}', constraint_dict['nphi'], 1)
-                    lam_g.append(lam_phi)
                     # always use CONL Hessian approximation here, disregarding inner second derivative
-                    outer_hess_r = ca.vertcat(*[ca.hessian(constraint_dict['con_phi_expr'][j], constraint_dict['con_r_in_phi'])[0] for j in range(constraint_dict['nphi'])])
-                    outer_hess_r = ca.substitute(outer_hess_r, constraint_dict['con_r_in_phi'], constraint_dict['con_r_expr'])
-                    r_in_nlp = ca.substitute(constraint_dict['con_r_expr'], model.x, xtraj_nodes[-1])
-                    dr_dw = ca.jacobian(r_in_nlp, w)
-                    hess_l += dr_dw.T @ outer_hess_r @ dr_dw
+                    con_r_expr, con_r_in_phi = constraint_dict['con_r_expr'], constraint_dict['con_r_in_phi']
+                    outer_hess = [ca.substitute(ca.hessian(constraint_dict['con_phi_expr'][j], con_r_in_phi)[0], con_r_in_phi, con_r_expr)
+                                  for j in range(constraint_dict['nphi'])]
+                    r_fun = ca.Function('r_fun', [model.x, model.u, model.p, model.p_global], [con_r_expr, *outer_hess])
+                    if i == N_horizon:
+                        utraj_node = np.zeros((dims.nu, 1))
+                    r_in_nlp, *outer_hess_in_nlp = r_fun(xtraj_nodes[i], utraj_node, ptraj_node, model.p_global)
+                    phi_hess_terms.append((self.offset_gnl - constraint_dict['nphi'], ca.jacobian(r_in_nlp, w), outer_hess_in_nlp))
 
         ### Cost and Hessian ###
         nlp_cost = 0
+        nlp_penalty = 0
         residual_list = []
         for i in range(N_horizon+1):
             cost_dict = self._get_cost_node(i, N_horizon, xtraj_nodes, utraj_nodes, p_nlp, sl_nodes, su_nodes, ocp)
@@ -348,17 +375,25 @@ class AcadosCasadiOcp:
 
             if cost_dict['residual_expr'] is not None:
                 residual_fun_i = ca.Function(f'residual_fun_{i}', [model.x, model.u, cost_dict['p_for_model'], model.p_global], [cost_dict['residual_expr']])
-                residual_i = ca.sqrt(solver_options.cost_scaling[i]) * ca.sqrt(cost_dict['W_mat']) @ residual_fun_i(cost_dict['xtraj_node'], cost_dict['utraj_node'], cost_dict['ptraj_node'], model.p_global)
-                residual_list.append(residual_i)
+                residual_i = residual_fun_i(cost_dict['xtraj_node'], cost_dict['utraj_node'], cost_dict['ptraj_node'], model.p_global)
+                residual_list.append((residual_i, solver_options.cost_scaling[i] * cost_dict['W_mat']))
             if cost_dict['ns'] > 0:
                 penalty_expr_i = 0.5 * ca.mtimes(cost_dict['sl_node'].T, ca.mtimes(np.diag(cost_dict['Zl']), cost_dict['sl_node'])) + \
                     ca.mtimes(cost_dict['zl'].reshape(-1, 1).T, cost_dict['sl_node']) + \
                     0.5 * ca.mtimes(cost_dict['su_node'].T, ca.mtimes(np.diag(cost_dict['Zu']), cost_dict['su_node'])) + \
                     ca.mtimes(cost_dict['zu'].reshape(-1, 1).T, cost_dict['su_node'])
-                nlp_cost += solver_options.cost_scaling[i] * penalty_expr_i
+                nlp_penalty += solver_options.cost_scaling[i] * penalty_expr_i
+        nlp_cost += nlp_penalty
 
         if with_hessian:
             lam_f = ca_symbol('lam_f', 1, 1)
+            lam_g_vec = ca_symbol('lam_g', self.offset_gnl, 1)
+            for offset, expr in exact_hess_terms:
+                adj = ca.jtimes(expr, w, lam_g_vec[offset:offset+casadi_length(expr)], True)
+                hess_l += ca.jacobian(adj, w, {"symmetric": is_casadi_SX(model.x)})
+            for offset, dr_dw, outer_hess in phi_hess_terms:
+                for j, outer_hess_j in enumerate(outer_hess):
+                    hess_l += lam_g_vec[offset + j] * (dr_dw.T @ outer_hess_j @ dr_dw)
             if (ocp.cost.cost_type == "LINEAR_LS" and ocp.cost.cost_type_0 == "LINEAR_LS" and ocp.cost.cost_type_e == "LINEAR_LS"):
                 hess_l += lam_f * ca.hessian(nlp_cost, w)[0]
             elif (ocp.cost.cost_type == "NONLINEAR_LS" and ocp.cost.cost_type_0 == "NONLINEAR_LS" and ocp.cost.cost_type_e == "NONLINEAR_LS"):
@@ -366,13 +401,13 @@ class AcadosCasadiOcp:
                     hess_l += lam_f * ca.hessian(nlp_cost, w)[0]
                 elif ocp.solver_options.hessian_approx == 'GAUSS_NEWTON':
                     Gauss_Newton = 0
-                    for i in range(len(residual_list)):
-                        dr_dw = ca.jacobian(residual_list[i], w)
-                        Gauss_Newton += dr_dw.T @ dr_dw
+                    for residual_i, W_i in residual_list:
+                        dr_dw = ca.jacobian(residual_i, w)
+                        Gauss_Newton += dr_dw.T @ W_i @ dr_dw
+                    Gauss_Newton += ca.hessian(nlp_penalty, w)[0]
                     hess_l += lam_f * Gauss_Newton
             else:
                 raise NotImplementedError("Hessian approximation not implemented for this cost type.")
-            lam_g_vec = ca.vertcat(*lam_g)
             nlp_hess_l_custom = ca.Function('nlp_hess_l', [w, p_nlp, lam_f, lam_g_vec], [ca.triu(hess_l)])
             assert casadi_length(lam_g_vec) == casadi_length(ca.vertcat(*g)), f"Number of nonlinear constraints does not match the expected number, got {casadi_length(lam_g_vec)} != {casadi_length(ca.vertcat(*g))}."
         else:
@@ -431,7 +466,7 @@ class AcadosCasadiOcp:
             self._index_map['u_in_w'].append(list(range(self.offset_w, self.offset_w + nu)))
             self.offset_w += nu
         elif _field == 'sl':
-            # TODO: specify different bounds for lsbu, lsbx, lsg, lsh ,lsphi
+            # NOTE: only slacks for h are supported
             lbsl, ubsl = self._set_bounds_indices('sl', i, constraints, dims)
             lbw_list.append(lbsl)
             ubw_list.append(ubsl)
@@ -492,6 +527,7 @@ class AcadosCasadiOcp:
             lbu = constraints.lbu
             ubu = constraints.ubu
             ns = dims.ns_0
+            lsh, ush = constraints.lsh_0, constraints.ush_0
         elif i < dims.N:
             idxbx = constraints.idxbx
             idxbu = constraints.idxbu
@@ -500,11 +536,13 @@ class AcadosCasadiOcp:
             lbu = constraints.lbu
             ubu = constraints.ubu
             ns = dims.ns
+            lsh, ush = constraints.lsh, constraints.ush
         elif i == dims.N:
             idxbx = constraints.idxbx_e
             lbx = constraints.lbx_e
             ubx = constraints.ubx_e
             ns = dims.ns_e
+            lsh, ush = constraints.lsh_e, constraints.ush_e
 
         if _field == 'x':
             lb_default = -np.inf * ca.DM.ones((dims.nx, 1))
@@ -521,12 +559,12 @@ class AcadosCasadiOcp:
             self._index_map['lam_bu_in_lam_w'].append(list(self.offset_lam + idxbu))
             self.offset_lam += dims.nu
         elif _field == 'sl':
-            lb_default = 0 * ca.DM.ones((ns, 1))
+            lb_default = ca.DM(lsh)
             ub_default = np.inf * ca.DM.ones((ns, 1))
             self._index_map['lam_sl_h_in_lam_w'].append(list(self.offset_lam + np.arange(ns)))
             self.offset_lam += ns
         elif _field == 'su':
-            lb_default = 0 * ca.DM.ones((ns, 1))
+            lb_default = ca.DM(ush)
             ub_default = np.inf * ca.DM.ones((ns, 1))
             self._index_map['lam_su_h_in_lam_w'].append(list(self.offset_lam + np.arange(ns)))
             self.offset_lam += ns
@@ -545,6 +583,11 @@ class AcadosCasadiOcp:
         elif _field == 'gnl':
             if gnl_type not in ['g', 'h', 'phi']:
                 raise ValueError(f"Invalid gnl_type: {gnl_type}. Expected 'g', 'h', or 'phi'.")
+            if gnl_type == 'h':
+                if not su:
+                    self._index_map['lh_in_lbg'][i].extend(list(range(self.offset_gnl, self.offset_gnl + cons_dim)))
+                if not sl:
+                    self._index_map['uh_in_ubg'][i].extend(list(range(self.offset_gnl, self.offset_gnl + cons_dim)))
             if not sl and not su:
                 target_key = f"lam_{gnl_type}_in_lam_g"
                 self._index_map[target_key][i].extend(list(range(self.offset_gnl, self.offset_gnl + cons_dim)))
@@ -567,7 +610,7 @@ class AcadosCasadiOcp:
         cost = ocp.cost
         p_index = self._index_map['p_in_p_nlp'][i]
         yref_index = self._index_map['yref_in_p_nlp'][i]
-        yref = p_nlp[yref_index]
+        yref = p_nlp[yref_index] if len(yref_index) > 0 else model.get_casadi_symbol()('yref', 0, 1)
         if i == 0:
             if cost.cost_type_0 == "NONLINEAR_LS" and not is_empty(ocp.model.cost_y_expr_0):
                 y = ocp.model.cost_y_expr_0
@@ -765,6 +808,8 @@ class AcadosCasadiOcp:
         - 'lam_gnl_in_lam_g': combined indices for [g, h, phi] within lam_g in casadi formulation
         - 'lam_gnl_sl_in_lam_g': indices to softened lower bounds of [g, h, phi] constraints within lam_g in casadi formulation
         - 'lam_gnl_su_in_lam_g': indices to softened upper bounds of [g, h, phi] constraints within lam_g in casadi formulation
+        - 'lh_in_lbg': indices of the lower bounds of h constraints (hard and softened) within lbg in casadi formulation
+        - 'uh_in_ubg': indices of the upper bounds of h constraints (hard and softened) within ubg in casadi formulation
         """
         return self.__index_map
 
-- 
2.43.0


From 1bba76f46f42b2626e3974b1f107fc5e29f6fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:55 +0000
Subject: [PATCH 61/66] fix: flat multipliers, iterates, cost values and bounds
 of softened constraints of AcadosCasadiOcpSolver

---
 .../acados_casadi_ocp_solver.py               | 38 +++++++------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
index 8973524..0339eb6 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
@@ -140,11 +140,9 @@ class AcadosCasadiOcpSolver:
             self.nlp_sol_x = [self.x_traj_fun[0]]
             for i in range(0, self.ocp.dims.N):
                 x_current = self.nlp_sol_x[i]
-                if self.ocp.solver_options.integrator_type == "DISCRETE":
-                    x_next = self.x_traj_fun[i+1](x_current, self.nlp_sol_w[i], self.ocp.parameter_values, self.ocp.p_global_values)
-                elif self.ocp.solver_options.integrator_type == "ERK":
-                    param = np.concatenate([self.nlp_sol_w[i], self.ocp.parameter_values, self.ocp.p_global_values])
-                    x_next = self.x_traj_fun[i+1](x_current, param, self.ocp.solver_options.time_steps[i])
+                param = np.concatenate([self.p[self.index_map['p_in_p_nlp'][i]], self.p[self.index_map['p_global_in_p_nlp'][0]],
+                                        [self.ocp.solver_options.time_steps[i]]])
+                x_next = self.x_traj_fun[i+1](x_current, self.nlp_sol_w[self.index_map['u_in_w'][i]], param)
                 self.nlp_sol_x.append(x_next.full())
 
         # statistics
@@ -280,11 +278,11 @@ class AcadosCasadiOcpSolver:
             offset = 0
             for i in range(dims.N+1):
                 if i == 0:
-                    n_lam_i = 2 * (dims.nbx_0 + dims.nbu + dims.ng + dims.nh_0 + dims.nphi_0)
+                    n_lam_i = 2 * (dims.nbx_0 + dims.nbu + dims.ng + dims.nh_0 + dims.nphi_0 + dims.ns_0)
                 elif i < dims.N:
-                    n_lam_i = 2 * (dims.nbx + dims.nbu + dims.ng + dims.nh + dims.nphi)
+                    n_lam_i = 2 * (dims.nbx + dims.nbu + dims.ng + dims.nh + dims.nphi + dims.ns)
                 elif i == dims.N:
-                    n_lam_i = 2 * (dims.nbx_e + dims.ng_e + dims.nh_e + dims.nphi_e)
+                    n_lam_i = 2 * (dims.nbx_e + dims.ng_e + dims.nh_e + dims.nphi_e + dims.ns_e)
                 self.set(i, 'lam', value_[offset : offset + n_lam_i])
                 offset += n_lam_i
         elif field_ in ['sl', 'su']:
@@ -323,7 +321,7 @@ class AcadosCasadiOcpSolver:
                 if n < self.ocp.dims.N or not (field in ["u", "pi", "z"]):
                     traj.append(self.get(n, field))
 
-            d[f"{field}_traj"] = traj
+            d[field] = traj
 
         return AcadosOcpIterate(**d)
 
@@ -456,19 +454,11 @@ class AcadosCasadiOcpSolver:
         self.p[index] = param_values_.flatten()
 
     def cost_get(self, stage_: int, field_: str) -> np.ndarray:
-        cost_dict = self.acados_casadi_ocp._get_cost_node(stage_)
         if field_ == 'yref':
             return self.p[self.index_map['yref_in_p_nlp'][stage_]].flatten()
-        elif field_ == 'W':
-            return cost_dict['W_mat']
-        elif field_ == 'Zl':
-            return cost_dict['Zl']
-        elif field_ == 'Zu':
-            return cost_dict['Zu']
-        elif field_ == 'zl':
-            return cost_dict['zl']
-        elif field_ == 'zu':
-            return cost_dict['zu']
+        elif field_ in ['W', 'Zl', 'Zu', 'zl', 'zu']:
+            suffix = '_0' if stage_ == 0 else '_e' if stage_ == self.ocp.solver_options.N_horizon else ''
+            return getattr(self.ocp.cost, field_ + suffix)
         else:
             raise NotImplementedError(f"Field '{field_}' is not yet implemented in cost_get().")
 
@@ -492,9 +482,9 @@ class AcadosCasadiOcpSolver:
         elif field_ == 'ug':
             return self.bounds['ubg'][self.index_map['lam_g_in_lam_g'][stage_]]
         elif field_ == 'lh':
-            return self.bounds['lbg'][self.index_map['lam_h_in_lam_g'][stage_]]
+            return self.bounds['lbg'][self.index_map['lh_in_lbg'][stage_]]
         elif field_ == 'uh':
-            return self.bounds['ubg'][self.index_map['lam_h_in_lam_g'][stage_]]
+            return self.bounds['ubg'][self.index_map['uh_in_ubg'][stage_]]
         elif field_ == 'lphi':
             return self.bounds['lbg'][self.index_map['lam_phi_in_lam_g'][stage_]]
         elif field_ == 'uphi':
@@ -516,9 +506,9 @@ class AcadosCasadiOcpSolver:
         elif field == 'ug':
             self.bounds['ubg'][self.index_map['lam_g_in_lam_g'][stage]] = value_.flatten()
         elif field == 'lh':
-            self.bounds['lbg'][self.index_map['lam_h_in_lam_g'][stage]] = value_.flatten()
+            self.bounds['lbg'][self.index_map['lh_in_lbg'][stage]] = value_.flatten()
         elif field == 'uh':
-            self.bounds['ubg'][self.index_map['lam_h_in_lam_g'][stage]] = value_.flatten()
+            self.bounds['ubg'][self.index_map['uh_in_ubg'][stage]] = value_.flatten()
         elif field == 'lphi':
             self.bounds['lbg'][self.index_map['lam_phi_in_lam_g'][stage]] = value_.flatten()
         elif field == 'uphi':
-- 
2.43.0


From b0a0458722a8fb3fe19561e1e878d7b8dad3a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:37 +0000
Subject: [PATCH 62/66] fix: AcadosSimSolver.get reserves too little memory for
 the dimensions of a vector

---
 interfaces/acados_template/acados_template/acados_sim_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_sim_solver.py b/interfaces/acados_template/acados_template/acados_sim_solver.py
index 7f49214..aedafe3 100644
--- a/interfaces/acados_template/acados_template/acados_sim_solver.py
+++ b/interfaces/acados_template/acados_template/acados_sim_solver.py
@@ -390,7 +390,7 @@ class AcadosSimSolver:
 
         if field_ in self.gettable_vectors:
             # get dims
-            dims = np.zeros((1,), dtype=np.intc, order='F')
+            dims = np.zeros((2,), dtype=np.intc, order='F')
             dims_data = cast(dims.ctypes.data, POINTER(c_int))
 
             self.__acados_lib.sim_dims_get_from_attr(self.sim_config, self.sim_dims, field, dims_data)
-- 
2.43.0


From c02bb00af35499cf40f8ad419b8f0a2e20474373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:13 +0000
Subject: [PATCH 63/66] fix: the generated solver does not free the arrays of
 functions for sensitivities of path constraints

---
 .../acados_template/c_templates_tera/acados_solver.in.c  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 1dcceea..263fb5c 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -3908,6 +3908,15 @@ int {{ name }}_acados_free({{ name }}_solver_capsule* capsule)
   {%- if solver_options.hessian_approx == "EXACT" %}
     free(capsule->nl_constr_h_fun_jac_hess);
   {%- endif %}
+  {%- if code_gen_options.with_solution_sens_wrt_params_forw %}
+    free(capsule->nl_constr_h_jac_p_hess_xu_p);
+  {%- endif %}
+  {%- if code_gen_options.with_solution_sens_wrt_params_adj %}
+    free(capsule->nl_constr_h_hess_ux_pdiff_adj_pdiff);
+  {%- endif %}
+  {%- if code_gen_options.with_value_sens_wrt_params %}
+    free(capsule->nl_constr_h_adj_p);
+  {%- endif %}
 
 {%- elif constraints.constr_type == "BGP" and dims.nphi > 0 %}
     for (int i = 0; i < N-1; i++)
-- 
2.43.0


From e01e05d5154133d3a638c6f8bea86a16fa570e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:33 +0000
Subject: [PATCH 64/66] fix: the option integrator_cost of least squares and
 convex-over-nonlinear costs is a bool but read as an int

---
 acados/ocp_nlp/ocp_nlp_cost_conl.c | 2 +-
 acados/ocp_nlp/ocp_nlp_cost_nls.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_conl.c b/acados/ocp_nlp/ocp_nlp_cost_conl.c
index ff5fb3d..b751aee 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_conl.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_conl.c
@@ -390,7 +390,7 @@ void ocp_nlp_cost_conl_opts_set(void *config_, void *opts_, const char *field, v
     }
     else if(!strcmp(field, "integrator_cost"))
     {
-        int *opt_val = (int *) value;
+        bool *opt_val = (bool *) value;
         opts->integrator_cost = *opt_val;
     }
     else if (!strcmp(field, "add_hess_contribution"))
diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index 305ded8..89389e8 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -477,7 +477,7 @@ void ocp_nlp_cost_nls_opts_set(void *config_, void *opts_, const char *field, vo
     }
     else if(!strcmp(field, "integrator_cost"))
     {
-        int *opt_val = (int *) value;
+        bool *opt_val = (bool *) value;
         opts->integrator_cost = *opt_val;
     }
     else if(!strcmp(field, "with_solution_sens_wrt_params_forw"))
-- 
2.43.0


From a0882215ead7dc396d96f4a1bf63d8934eb4f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:54 +0000
Subject: [PATCH 65/66] fix: lifted IRK passes the time argument to the
 implicit ODE functions

---
 acados/sim/sim_lifted_irk_integrator.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/acados/sim/sim_lifted_irk_integrator.c b/acados/sim/sim_lifted_irk_integrator.c
index 00bdc42..12d420e 100644
--- a/acados/sim/sim_lifted_irk_integrator.c
+++ b/acados/sim/sim_lifted_irk_integrator.c
@@ -740,11 +740,14 @@ int sim_lifted_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *m
 
     struct blasfeo_dvec_args ext_fun_in_K;
 
-    ext_fun_arg_t ext_fun_type_in[4];
-    void *ext_fun_in[4];
+    ext_fun_arg_t ext_fun_type_in[5];
+    void *ext_fun_in[5];
     // TODO: fix this for z
     ext_fun_type_in[3] = COLMAJ;
     ext_fun_in[3] = u;
+    double t_current = in->t0;
+    ext_fun_type_in[4] = COLMAJ;
+    ext_fun_in[4] = &t_current;
 
 
     struct blasfeo_dvec_args ext_fun_out_rG;
@@ -817,6 +820,8 @@ int sim_lifted_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *m
 
         for (ii = 0; ii < ns; ii++)  // ii-th row of tableau
         {
+            t_current = in->t0 + ss * step + opts->c_vec[ii] * step;
+
             // take x(n); copy a strvec into a strvec
             blasfeo_dveccp(nx, xn, 0, xt, 0);
 
-- 
2.43.0


From 895b7981d67134cb02c5ad237901c418a2192d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:29 +0000
Subject: [PATCH 66/66] fix: OSQP can be terminated before its first call

---
 acados/ocp_qp/ocp_qp_osqp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_qp/ocp_qp_osqp.c b/acados/ocp_qp/ocp_qp_osqp.c
index f264acd..d2849e6 100644
--- a/acados/ocp_qp/ocp_qp_osqp.c
+++ b/acados/ocp_qp/ocp_qp_osqp.c
@@ -1711,7 +1711,9 @@ void ocp_qp_osqp_terminate(void *config_, void *mem_, void *work_)
 {
     ocp_qp_osqp_memory *mem = (ocp_qp_osqp_memory *) mem_;
     OSQPWorkspace *work = mem->osqp_work;
-    work->linsys_solver->free(work->linsys_solver);
+    // the linear system solver is only set up in the first solver call
+    if (!mem->first_run && work->linsys_solver)
+        work->linsys_solver->free(work->linsys_solver);
 }
 
 
-- 
2.43.0

